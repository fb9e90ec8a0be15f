open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let k16 = String.init 16 (fun i -> Char.chr (i * 7 + 3))
let () =
  let iv = "\001\002\003\004\005\006\007\008\009\010\011\012\255\255\255\255" in
  let c = new Block.aes_encrypt k16 in
  let e s = let b = Bytes.of_string s in c#transform b 0 b 0; Bytes.to_string b in
  let r = transform_string (Cipher.aes ~mode:(Cipher.CTR_N 2) ~iv k16 Cipher.Encrypt) (String.make 48 '\000') in
  let pre = String.sub iv 0 14 in
  check "block 1" (String.sub r 16 16 = e (pre ^ "\000\000")); check "block 2" (String.sub r 32 16 = e (pre ^ "\000\001"))