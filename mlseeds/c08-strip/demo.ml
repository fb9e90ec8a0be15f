open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  let b = Bytes.make 16 '\016' in check "good" (Padding.length#strip b = 0);
  Bytes.set b 0 '\000';
  check "bad first byte" (raises (Error Bad_padding) (fun () -> Padding.length#strip b))