open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  (* NIST: GHASH-derived counter; compare with an independent computation *)
  let k = String.make 16 'k' in let iv = String.init 300 (fun i -> Char.chr (i land 255)) in
  let aes = new Block.aes_encrypt k in
  let e s = let b = Bytes.of_string s in aes#transform b 0 b 0; Bytes.to_string b in
  let bit s i = (Char.code s.[i / 8] lsr (7 - i mod 8)) land 1 in
  let mul x y = let z = Bytes.make 16 '\000' and v = Bytes.of_string y in
    for i = 0 to 127 do
      if bit x i = 1 then xor_bytes v 0 z 0 16;
      let lsb = Char.code (Bytes.get v 15) land 1 in
      for j = 15 downto 0 do Bytes.set v j (Char.chr ((Char.code (Bytes.get v j) lsr 1) lor (if j > 0 then (Char.code (Bytes.get v (j - 1)) land 1) lsl 7 else 0))) done;
      if lsb = 1 then Bytes.set v 0 (Char.chr (Char.code (Bytes.get v 0) lxor 0xe1))
    done; Bytes.to_string z in
  let h = e (String.make 16 '\000') in
  let ghash s = let y = ref (String.make 16 '\000') in
    for i = 0 to String.length s / 16 - 1 do let b = Bytes.of_string (String.sub s (16 * i) 16) in xor_string !y 0 b 0 16; y := mul (Bytes.to_string b) h done; !y in
  let len n = let b = Bytes.make 8 '\000' in Bytes.set_int64_be b 0 (Int64.of_int (8 * n)); Bytes.to_string b in
  let pad s = s ^ String.make ((16 - String.length s mod 16) mod 16) '\000' in
  let j0 = ghash (pad iv ^ String.make 8 '\000' ^ len (String.length iv)) in
  let tag = ghash (String.make 8 '\000' ^ len 0) in
  let t = Bytes.of_string (e j0) in xor_string tag 0 t 0 16;
  check "tag" (auth_transform_string (AEAD.aes_gcm ~iv k AEAD.Encrypt) "" = Bytes.to_string t)