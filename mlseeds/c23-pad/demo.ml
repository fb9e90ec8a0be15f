open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let dec s = transform_string (Base64.decode ()) s
let () = check "ok" (dec "YQ==" = "a");
  check "data after padding" (raises (Error Bad_encoding) (fun () -> dec "YQ==YQ=="));
  check "data after padding 2" (raises (Error Bad_encoding) (fun () -> dec "YWI=YWI="))