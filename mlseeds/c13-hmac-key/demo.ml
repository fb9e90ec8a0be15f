open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let h s = hash_string (Hash.sha256 ()) s
let hm k m = let k = if String.length k > 64 then h k else k in
  let x b = String.init 64 (fun i -> Char.chr (b lxor (if i < String.length k then Char.code k.[i] else 0))) in
  h (x 0x5c ^ h (x 0x36 ^ m))
let () = List.iter (fun n -> let k = String.make n 'k' in check (Printf.sprintf "key %d" n) (hash_string (MAC.hmac_sha256 k) "msg" = hm k "msg")) [0; 1; 63; 64; 65; 200]