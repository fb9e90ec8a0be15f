open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let dec s = transform_string (Hexa.decode ()) s
let () = check "tab" (dec "61\t62" = "ab"); check "vt" (raises (Error Bad_encoding) (fun () -> dec "61\01162")); check "ff" (raises (Error Bad_encoding) (fun () -> dec "61\01262"))