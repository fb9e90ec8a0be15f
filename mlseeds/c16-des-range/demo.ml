open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  let c = new Block.triple_des_decrypt (String.make 24 'k') in
  let src = Bytes.make 64 's' and dst = Bytes.make 12 'd' in
  check "dst range" (match c#transform src 0 dst 5 with () -> false | exception Invalid_argument _ -> true);
  check "unchanged" (Bytes.to_string dst = String.make 12 'd')