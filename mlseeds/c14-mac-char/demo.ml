open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let k16 = String.init 16 (fun i -> Char.chr (i * 7 + 3))
let () =
  let d = String.init 100 (fun i -> Char.chr (i * 3 land 255)) in
  let a = hash_string (MAC.aes ~pad:Padding.length k16) d in
  let h = MAC.aes ~pad:Padding.length k16 in
  String.iter h#add_char d; check "char by char" (h#result = a)