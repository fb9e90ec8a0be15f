open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
module Bn = CryptokitBignum
let () =
  let rng = Random.pseudo_rng (String.make 20 's') in
  for n = 1 to 80 do
    let ok = (try ignore (Bn.random ~rng:(rng#random_bytes) n); true with _ -> false) in
    check (Printf.sprintf "random %d bits" n) ok
  done