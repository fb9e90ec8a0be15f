(* Line-protocol driver over the public API of Cryptokit (replay and bounded
   stand-ins).  One command per line, one reply line per command. *)
[@@@alert "-crypto"]
open Cryptokit
let hexd = "0123456789abcdef"
let to_hex s =
  if s = "" then "-" else begin
    let n = String.length s in
    let b = Bytes.create (2*n) in
    for i = 0 to n-1 do
      let c = Char.code s.[i] in
      Bytes.unsafe_set b (2*i) hexd.[c lsr 4]; Bytes.unsafe_set b (2*i+1) hexd.[c land 15]
    done; Bytes.unsafe_to_string b end
let of_hex s =
  if s = "-" then "" else begin
    let v c = match c with '0'..'9' -> Char.code c - 48 | 'a'..'f' -> Char.code c - 87 | _ -> failwith "hex" in
    String.init (String.length s / 2) (fun i -> Char.chr (16 * v s.[2*i] + v s.[2*i+1])) end
(* data tokens: hex, or  *N:hh  (N times byte hh),  or  @N:seed  (pseudo-random bytes) *)
let data tok =
  if tok <> "" && tok.[0] = '*' then Scanf.sscanf tok "*%d:%x" (fun n c -> String.make n (Char.chr c))
  else if tok <> "" && tok.[0] = '@' then
    Scanf.sscanf tok "@%d:%d" (fun n seed ->
      let s = ref (seed land 0x7fffffff) in
      String.init n (fun _ -> s := (!s * 1103515245 + 12345) land 0x7fffffff; Char.chr ((!s lsr 16) land 255)))
  else of_hex tok
exception Bad of string
let errname = function
  | Wrong_key_size -> "Wrong_key_size" | Wrong_IV_size -> "Wrong_IV_size" | Wrong_data_length -> "Wrong_data_length"
  | Bad_padding -> "Bad_padding" | Output_buffer_overflow -> "Output_buffer_overflow"
  | Incompatible_block_size -> "Incompatible_block_size" | Number_too_long -> "Number_too_long"
  | Seed_too_short -> "Seed_too_short" | Message_too_long -> "Message_too_long" | Bad_encoding -> "Bad_encoding"
  | Compression_error _ -> "Compression_error" | No_entropy_source -> "No_entropy_source"
  | Entropy_source_closed -> "Entropy_source_closed" | Compression_not_supported -> "Compression_not_supported"
let exname = function
  | Error e -> "Error." ^ errname e | Invalid_argument _ -> "Invalid_argument" | End_of_file -> "End_of_file"
  | Not_found -> "Not_found" | Division_by_zero -> "Division_by_zero" | Failure _ -> "Failure"
  | Out_of_memory -> "Out_of_memory" | Stack_overflow -> "Stack_overflow" | Assert_failure _ -> "Assert_failure"
  | Sys_error _ -> "Sys_error" | Unix.Unix_error _ -> "Unix_error" | Match_failure _ -> "Match_failure"
  | Bad s -> "BAD:" ^ s | e -> Printexc.to_string e
let toks = ref []
let next () = match !toks with [] -> raise (Bad "missing token") | t :: r -> toks := r; t
let str () = data (next ())
let int () = int_of_string (next ())
let opt f = match !toks with "_" :: r -> toks := r; None | _ -> Some (f ())
let bt : (int, Block.block_cipher) Hashtbl.t = Hashtbl.create 17
let tt : (int, transform) Hashtbl.t = Hashtbl.create 17
let ht : (int, hash) Hashtbl.t = Hashtbl.create 17
let at : (int, authenticated_transform) Hashtbl.t = Hashtbl.create 17
let rt : (int, Random.rng) Hashtbl.t = Hashtbl.create 17
let st : (int, Stream.stream_cipher) Hashtbl.t = Hashtbl.create 17
let yt : (int, bytes) Hashtbl.t = Hashtbl.create 17
let rk : (int, RSA.private_key * RSA.public_key) Hashtbl.t = Hashtbl.create 17
let pk : (int, Paillier.private_key * Paillier.public_key) Hashtbl.t = Hashtbl.create 17
let dp : (int, DH.parameters) Hashtbl.t = Hashtbl.create 17
let ds : (int, DH.private_secret) Hashtbl.t = Hashtbl.create 17
let calls = ref 0
let pad () = match next () with "length" -> Padding.length | "8000" -> Padding._8000 | s -> raise (Bad s)
let rec block () : Block.block_cipher = match next () with
  | "aes_e" -> new Block.aes_encrypt (str ()) | "aes_d" -> new Block.aes_decrypt (str ())
  | "des_e" -> new Block.des_encrypt (str ()) | "des_d" -> new Block.des_decrypt (str ())
  | "tdes_e" -> new Block.triple_des_encrypt (str ()) | "tdes_d" -> new Block.triple_des_decrypt (str ())
  | "bf_e" -> new Block.blowfish_encrypt (str ()) | "bf_d" -> new Block.blowfish_decrypt (str ())
  | "cbc_e" -> let iv = opt str in new Block.cbc_encrypt ?iv (block ())
  | "cbc_d" -> let iv = opt str in new Block.cbc_decrypt ?iv (block ())
  | "cfb_e" -> let iv = opt str in let n = int () in new Block.cfb_encrypt ?iv n (block ())
  | "cfb_d" -> let iv = opt str in let n = int () in new Block.cfb_decrypt ?iv n (block ())
  | "ofb" -> let iv = opt str in let n = int () in new Block.ofb ?iv n (block ())
  | "ctr" -> let iv = opt str in let inc = opt int in new Block.ctr ?iv ?inc (block ())
  | "b" -> Hashtbl.find bt (int ())
  | "toy" -> (* an arbitrary-block-size permutation: y[i] = rot(x)[i] * 5 + key + i *)
    let bs = int () in let k = int () in
    object
      method blocksize = bs
      method transform src so dst d_o =
        incr calls;
        if so < 0 || so > Bytes.length src - bs || d_o < 0 || d_o > Bytes.length dst - bs then invalid_arg "toy";
        let t = Bytes.sub src so bs in
        for i = 0 to bs-1 do
          Bytes.set dst (d_o+i) (Char.chr ((Char.code (Bytes.get t ((i+1) mod bs)) * 5 + k + i) land 255)) done
      method wipe = () end
  | "toyd" -> let bs = int () in let k = int () in
    object
      method blocksize = bs
      method transform src so dst d_o =
        if so < 0 || so > Bytes.length src - bs || d_o < 0 || d_o > Bytes.length dst - bs then invalid_arg "toy";
        let t = Bytes.sub src so bs in
        for i = 0 to bs-1 do
          Bytes.set dst (d_o+((i+1) mod bs)) (Char.chr (((Char.code (Bytes.get t i) - k - i) * 205) land 255)) done
      method wipe = () end
  | s -> raise (Bad s)
let stream () : Stream.stream_cipher = match next () with
  | "arcfour" -> new Stream.arcfour (str ())
  | "chacha" -> let iv = opt str in let ctr = opt (fun () -> Int64.of_string (next ())) in new Stream.chacha20 ?iv ?ctr (str ())
  | "s" -> Hashtbl.find st (int ())
  | s -> raise (Bad s)
let mode () = match next () with
  | "_" -> None | "ECB" -> Some Cipher.ECB | "CBC" -> Some Cipher.CBC | "CTR" -> Some Cipher.CTR
  | "CFB" -> Some (Cipher.CFB (int ())) | "OFB" -> Some (Cipher.OFB (int ())) | "CTRN" -> Some (Cipher.CTR_N (int ()))
  | s -> raise (Bad s)
let dir () = match next () with "e" -> Cipher.Encrypt | "d" -> Cipher.Decrypt | s -> raise (Bad s)
let adir () = match next () with "e" -> AEAD.Encrypt | "d" -> AEAD.Decrypt | s -> raise (Bad s)
let bool () = match next () with "1" -> true | _ -> false
let rec transform () : transform = match next () with
  | "cipher" -> new Block.cipher (block ())
  | "cpe" -> let p = pad () in new Block.cipher_padded_encrypt p (block ())
  | "cpd" -> let p = pad () in new Block.cipher_padded_decrypt p (block ())
  | "scipher" -> new Stream.cipher (stream ())
  | "aes" -> let mode = mode () in let pad = opt pad in let iv = opt str in let k = str () in Cipher.aes ?mode ?pad ?iv k (dir ())
  | "des" -> let mode = mode () in let pad = opt pad in let iv = opt str in let k = str () in Cipher.des ?mode ?pad ?iv k (dir ())
  | "tdes" -> let mode = mode () in let pad = opt pad in let iv = opt str in let k = str () in Cipher.triple_des ?mode ?pad ?iv k (dir ())
  | "bf" -> let mode = mode () in let pad = opt pad in let iv = opt str in let k = str () in Cipher.blowfish ?mode ?pad ?iv k (dir ())
  | "rc4" -> let k = str () in Cipher.arcfour k (dir ())
  | "cc20" -> let iv = opt str in let ctr = opt (fun () -> Int64.of_string (next ())) in let k = str () in Cipher.chacha20 ?iv ?ctr k (dir ())
  | "compose" -> let a = transform () in let b = transform () in compose a b
  | "b64m" -> Base64.encode_multiline () | "b64c" -> Base64.encode_compact () | "b64p" -> Base64.encode_compact_pad ()
  | "b64d" -> Base64.decode () | "hexe" -> Hexa.encode () | "hexd" -> Hexa.decode ()
  | "zc" -> let level = opt int in let write_zlib_header = opt bool in Zlib.compress ?level ?write_zlib_header ()
  | "zu" -> let expect_zlib_header = opt bool in Zlib.uncompress ?expect_zlib_header ()
  | "t" -> Hashtbl.find tt (int ())
  | s -> raise (Bad s)
let hash () : hash = match next () with
  | "sha1" -> Hash.sha1 () | "sha2" -> Hash.sha2 (int ()) | "sha224" -> Hash.sha224 () | "sha256" -> Hash.sha256 ()
  | "sha384" -> Hash.sha384 () | "sha512" -> Hash.sha512 () | "sha3" -> Hash.sha3 (int ()) | "keccak" -> Hash.keccak (int ())
  | "blake2b" -> Hash.blake2b (int ()) | "blake2s" -> Hash.blake2s (int ()) | "blake2b512" -> Hash.blake2b512 ()
  | "blake2s256" -> Hash.blake2s256 () | "blake3" -> Hash.blake3 (int ()) | "blake3_256" -> Hash.blake3_256 ()
  | "rmd160" -> Hash.ripemd160 () | "md5" -> Hash.md5 ()
  | "hmac_sha1" -> MAC.hmac_sha1 (str ()) | "hmac_sha256" -> MAC.hmac_sha256 (str ()) | "hmac_sha384" -> MAC.hmac_sha384 (str ())
  | "hmac_sha512" -> MAC.hmac_sha512 (str ()) | "hmac_rmd160" -> MAC.hmac_ripemd160 (str ()) | "hmac_md5" -> MAC.hmac_md5 (str ())
  | "mblake2b" -> let n = int () in MAC.blake2b n (str ()) | "mblake2s" -> let n = int () in MAC.blake2s n (str ())
  | "mblake2b512" -> MAC.blake2b512 (str ()) | "mblake2s256" -> MAC.blake2s256 (str ())
  | "mblake3" -> let n = int () in MAC.blake3 n (str ()) | "mblake3_256" -> MAC.blake3_256 (str ())
  | "cmac" -> let iv = opt str in MAC.aes_cmac ?iv (str ())
  | "maes" -> let iv = opt str in let pad = opt pad in MAC.aes ?iv ?pad (str ())
  | "mdes" -> let iv = opt str in let pad = opt pad in MAC.des ?iv ?pad (str ())
  | "mtdes" -> let iv = opt str in let pad = opt pad in MAC.triple_des ?iv ?pad (str ())
  | "mdft" -> let iv = opt str in let pad = opt pad in MAC.des_final_triple_des ?iv ?pad (str ())
  | "siphash" -> MAC.siphash (str ()) | "siphash128" -> MAC.siphash128 (str ())
  | "bmac" -> let iv = opt str in let pad = opt pad in new Block.mac ?iv ?pad (block ())
  | "bmac3" -> let iv = opt str in let pad = opt pad in let a = block () in let b = block () in let c = block () in
      new Block.mac_final_triple ?iv ?pad a b c
  | "h" -> Hashtbl.find ht (int ())
  | s -> raise (Bad s)
let auth () : authenticated_transform = match next () with
  | "gcm" -> let header = opt str in let iv = str () in let k = str () in AEAD.aes_gcm ?header ~iv k (adir ())
  | "cp" -> let header = opt str in let iv = str () in let k = str () in AEAD.chacha20_poly1305 ?header ~iv k (adir ())
  | "tth" -> let t = transform () in transform_then_hash t (hash ())
  | "tah" -> let t = transform () in transform_and_hash t (hash ())
  | "a" -> Hashtbl.find at (int ())
  | s -> raise (Bad s)
let rng () : Random.rng = match next () with
  | "prng" -> Random.pseudo_rng (str ()) | "paes" -> Random.pseudo_rng_aes_ctr (str ())
  | "dev" -> Random.device_rng (next ()) | "sys" -> Random.system_rng () | "hw" -> Random.hardware_rng ()
  | "secure" -> Random.secure_rng
  | "r" -> Hashtbl.find rt (int ())
  | "fixed" -> let s = str () in let pos = ref 0 in
    object
      method random_bytes b o l =
        if o < 0 || l < 0 || o > Bytes.length b - l then invalid_arg "fixed";
        if !pos + l > String.length s then raise End_of_file;
        Bytes.blit_string s !pos b o l; pos := !pos + l
      method wipe = () end
  | s -> raise (Bad s)
let sp = Printf.sprintf
(* all byte data reachable from a value, in traversal order *)
let dump (v : Obj.t) =
  let seen = ref [] and out = Buffer.create 100 in
  let rec go v =
    if Obj.is_block v && not (List.memq v !seen) then begin
      let tag = Obj.tag v in
      if tag = Obj.string_tag then begin
        seen := v :: !seen;
        Buffer.add_string out (to_hex (Obj.obj v)); Buffer.add_char out ',' end
      else if tag = Obj.object_tag then begin
        seen := v :: !seen;
        for i = 2 to Obj.size v - 1 do go (Obj.field v i) done end
      else if tag = Obj.closure_tag then begin
        seen := v :: !seen;
        let start = (Obj.obj (Obj.field v 1) : int) land ((1 lsl 55) - 1) in
        for i = start to Obj.size v - 1 do go (Obj.field v i) done end
      else if tag < Obj.no_scan_tag && tag <> Obj.infix_tag then begin
        seen := v :: !seen;
        for i = 0 to Obj.size v - 1 do go (Obj.field v i) done end
    end in
  go v; Buffer.contents out
let rsa_show ((k, p) : RSA.private_key * RSA.public_key) =
  sp "%d %s %s %s %s %s %s %s %d %s %s" k.RSA.size (to_hex k.RSA.n) (to_hex k.RSA.d) (to_hex k.RSA.p) (to_hex k.RSA.q) (to_hex k.RSA.dp)
    (to_hex k.RSA.dq) (to_hex k.RSA.qinv) p.RSA.size (to_hex p.RSA.n) (to_hex p.RSA.e)
let pai_show ((k, p) : Paillier.private_key * Paillier.public_key) =
  sp "%d %s %s %s %s %s %s %d %s %s %s" k.Paillier.size (to_hex k.Paillier.n) (to_hex k.Paillier.n2) (to_hex k.Paillier.p)
    (to_hex k.Paillier.q) (to_hex k.Paillier.lambda) (to_hex k.Paillier.mu) p.Paillier.size (to_hex p.Paillier.n)
    (to_hex p.Paillier.n2) (to_hex p.Paillier.g)
let bg () = let s = next () in
  if s.[0] = 'i' then CryptokitBignum.of_int (int_of_string (String.sub s 1 (String.length s - 1))) else CryptokitBignum.of_bytes (of_hex s)
let bs x = to_hex (CryptokitBignum.to_bytes x)
let fill b = Hashtbl.find yt b
let with_in path f = let ic = open_in_bin path in match f ic with r -> let p = pos_in ic in close_in ic; (r, p) | exception e -> close_in ic; raise e
(* leave exactly k free words in the minor heap before the next command *)
let rec exec () : string = match next () with
  | "B" -> let i = int () in Hashtbl.replace bt i (block ()); "ok"
  | "T" -> let i = int () in Hashtbl.replace tt i (transform ()); "ok"
  | "H" -> let i = int () in Hashtbl.replace ht i (hash ()); "ok"
  | "A" -> let i = int () in Hashtbl.replace at i (auth ()); "ok"
  | "R" -> let i = int () in Hashtbl.replace rt i (rng ()); "ok"
  | "S" -> let i = int () in Hashtbl.replace st i (stream ()); "ok"
  (* byte buffers *)
  | "Y" -> let i = int () in Hashtbl.replace yt i (Bytes.of_string (str ())); "ok"
  | "y" -> to_hex (Bytes.to_string (Hashtbl.find yt (int ())))
  (* block ciphers on buffers *)
  | "bt" -> let b = Hashtbl.find bt (int ()) in let s = fill (int ()) in let so = int () in let d = fill (int ()) in let d_o = int () in
      b#transform s so d d_o; "ok"
  | "bbs" -> string_of_int (Hashtbl.find bt (int ()))#blocksize
  | "bw" -> (Hashtbl.find bt (int ()))#wipe; "ok"
  | "stt" -> let b = Hashtbl.find st (int ()) in let s = fill (int ()) in let so = int () in let d = fill (int ()) in let d_o = int () in
      b#transform s so d d_o (int ()); "ok"
  | "sw" -> (Hashtbl.find st (int ()))#wipe; "ok"
  | "calls" -> let n = !calls in calls := 0; string_of_int n
  (* transforms *)
  | "tp" -> let t = Hashtbl.find tt (int ()) in t#put_string (str ()); "ok"
  | "tps" -> let t = Hashtbl.find tt (int ()) in let b = fill (int ()) in let o = int () in t#put_substring b o (int ()); "ok"
  | "tpc" -> let t = Hashtbl.find tt (int ()) in t#put_char (Char.chr (int ())); "ok"
  | "tpb" -> let t = Hashtbl.find tt (int ()) in t#put_byte (int ()); "ok"
  | "tfl" -> (Hashtbl.find tt (int ()))#flush; "ok"
  | "tfi" -> (Hashtbl.find tt (int ()))#finish; "ok"
  | "tav" -> string_of_int (Hashtbl.find tt (int ()))#available_output
  | "tgs" -> to_hex (Hashtbl.find tt (int ()))#get_string
  | "tgss" -> let (b, o, l) = (Hashtbl.find tt (int ()))#get_substring in to_hex (Bytes.sub_string b o l)
  | "tgc" -> string_of_int (Char.code (Hashtbl.find tt (int ()))#get_char)
  | "tgb" -> string_of_int (Hashtbl.find tt (int ()))#get_byte
  | "tib" -> string_of_int (Hashtbl.find tt (int ()))#input_block_size
  | "tob" -> string_of_int (Hashtbl.find tt (int ()))#output_block_size
  | "tw" -> (Hashtbl.find tt (int ()))#wipe; "ok"
  | "ts" -> let t = transform () in to_hex (transform_string t (str ()))
  | "tch" -> let t = transform () in let len = opt int in let inp = next () in let outp = next () in
      let oc = open_out_bin outp in
      (match with_in inp (fun ic -> transform_channel t ?len ic oc) with
       | ((), p) -> close_out oc; sp "ok %d" p | exception e -> close_out oc; raise e)
  (* hashes *)
  | "hp" -> let t = Hashtbl.find ht (int ()) in t#add_string (str ()); "ok"
  | "hps" -> let t = Hashtbl.find ht (int ()) in let b = fill (int ()) in let o = int () in t#add_substring b o (int ()); "ok"
  | "hpc" -> let t = Hashtbl.find ht (int ()) in t#add_char (Char.chr (int ())); "ok"
  | "hpb" -> let t = Hashtbl.find ht (int ()) in t#add_byte (int ()); "ok"
  | "hr" -> to_hex (Hashtbl.find ht (int ()))#result
  | "hz" -> string_of_int (Hashtbl.find ht (int ()))#hash_size
  | "hw" -> (Hashtbl.find ht (int ()))#wipe; "ok"
  | "hs" -> let h = hash () in to_hex (hash_string h (str ()))
  | "hch" -> let h = hash () in let len = opt int in let inp = next () in
      let (r, p) = with_in inp (fun ic -> hash_channel h ?len ic) in sp "%s %d" (to_hex r) p
  (* feed the same buffer n times *)
  | "hrep" -> let t = Hashtbl.find ht (int ()) in let b = fill (int ()) in for _ = 1 to int () do t#add_substring b 0 (Bytes.length b) done; "ok"
  | "trep" -> let t = Hashtbl.find tt (int ()) in let b = fill (int ()) in for _ = 1 to int () do
        t#put_substring b 0 (Bytes.length b); ignore t#get_substring done; "ok"
  | "arep" -> let t = Hashtbl.find at (int ()) in let b = fill (int ()) in for _ = 1 to int () do
        t#put_substring b 0 (Bytes.length b); ignore t#get_substring done; "ok"
  (* authenticated transforms *)
  | "ap" -> let t = Hashtbl.find at (int ()) in t#put_string (str ()); "ok"
  | "aps" -> let t = Hashtbl.find at (int ()) in let b = fill (int ()) in let o = int () in t#put_substring b o (int ()); "ok"
  | "apc" -> let t = Hashtbl.find at (int ()) in t#put_char (Char.chr (int ())); "ok"
  | "apb" -> let t = Hashtbl.find at (int ()) in t#put_byte (int ()); "ok"
  | "af" -> to_hex (Hashtbl.find at (int ()))#finish_and_get_tag
  | "aav" -> string_of_int (Hashtbl.find at (int ()))#available_output
  | "ags" -> to_hex (Hashtbl.find at (int ()))#get_string
  | "agss" -> let (b, o, l) = (Hashtbl.find at (int ()))#get_substring in to_hex (Bytes.sub_string b o l)
  | "agc" -> string_of_int (Char.code (Hashtbl.find at (int ()))#get_char)
  | "agb" -> string_of_int (Hashtbl.find at (int ()))#get_byte
  | "aib" -> string_of_int (Hashtbl.find at (int ()))#input_block_size
  | "aob" -> string_of_int (Hashtbl.find at (int ()))#output_block_size
  | "az" -> string_of_int (Hashtbl.find at (int ()))#tag_size
  | "aw" -> (Hashtbl.find at (int ()))#wipe; "ok"
  | "ats" -> let t = auth () in to_hex (auth_transform_string t (str ()))
  | "acs" -> let t = auth () in (match auth_check_transform_string t (str ()) with None -> "none" | Some s -> "some " ^ to_hex s)
  | "atd" -> let t = auth () in let (a, b) = auth_transform_string_detached t (str ()) in sp "%s %s" (to_hex a) (to_hex b)
  (* rng *)
  | "rb" -> let r = Hashtbl.find rt (int ()) in let b = fill (int ()) in let o = int () in r#random_bytes b o (int ()); "ok"
  | "rs" -> let r = Hashtbl.find rt (int ()) in to_hex (Random.string r (int ()))
  | "rw" -> (Hashtbl.find rt (int ()))#wipe; "ok"
  (* padding *)
  | "pp" -> let p = pad () in let b = fill (int ()) in p#pad b (int ()); "ok"
  | "ps" -> let p = pad () in string_of_int (p#strip (fill (int ())))
  (* public-key *)
  | "rsanew" -> let i = int () in let rng = rng () in let e = opt int in let k = RSA.new_key ~rng ?e (int ()) in Hashtbl.replace rk i k; rsa_show k
  | "rsaset" -> let i = int () in let size = int () in let n = str () in let d = str () in let p = str () in let q = str () in
      let dp = str () in let dq = str () in let qinv = str () in let e = str () in
      Hashtbl.replace rk i ({RSA.size; n; d; p; q; dp; dq; qinv}, {RSA.size; n; e}); "ok"
  | "rsa" -> let (k, p) = Hashtbl.find rk (int ()) in let op = next () in let m = str () in
      to_hex (match op with "enc" -> RSA.encrypt p m | "dec" -> RSA.decrypt k m | "deccrt" -> RSA.decrypt_CRT k m
        | "sign" -> RSA.sign k m | "signcrt" -> RSA.sign_CRT k m | "unwrap" -> RSA.unwrap_signature p m | s -> raise (Bad s))
  | "rsawipe" -> let k = Hashtbl.find rk (int ()) in RSA.wipe_key (fst k); rsa_show k
  | "painew" -> let i = int () in let rng = rng () in let k = Paillier.new_key ~rng (int ()) in Hashtbl.replace pk i k; pai_show k
  | "paiset" -> let i = int () in let size = int () in let n = str () in let n2 = str () in let p = str () in let q = str () in
      let lambda = str () in let mu = str () in let g = str () in
      Hashtbl.replace pk i ({Paillier.size; n; n2; p; q; lambda; mu}, {Paillier.size; n; n2; g}); "ok"
  | "paienc" -> let (_, p) = Hashtbl.find pk (int ()) in let rng = rng () in to_hex (Paillier.encrypt ~rng p (str ()))
  | "paidec" -> let (k, _) = Hashtbl.find pk (int ()) in to_hex (Paillier.decrypt k (str ()))
  | "paiadd" -> let (_, p) = Hashtbl.find pk (int ()) in let a = str () in to_hex (Paillier.add p a (str ()))
  | "paiwipe" -> let k = Hashtbl.find pk (int ()) in Paillier.wipe_key (fst k); pai_show k
  | "dhnew" -> let i = int () in let rng = rng () in let privlen = opt int in let p = DH.new_parameters ~rng ?privlen (int ()) in
      Hashtbl.replace dp i p; sp "%s %s %d" (to_hex p.DH.p) (to_hex p.DH.g) p.DH.privlen
  | "dhset" -> let i = int () in let p = str () in let g = str () in Hashtbl.replace dp i {DH.p; g; privlen = int ()}; "ok"
  | "dhpriv" -> let i = int () in let p = Hashtbl.find dp (int ()) in Hashtbl.replace ds i (DH.private_secret ~rng:(rng ()) p); "ok"
  | "dhmsg" -> let p = Hashtbl.find dp (int ()) in to_hex (DH.message p (Hashtbl.find ds (int ())))
  | "dhsh" -> let p = Hashtbl.find dp (int ()) in let s = Hashtbl.find ds (int ()) in to_hex (DH.shared_secret p s (str ()))
  | "dhkey" -> let diversification = opt str in let s = str () in to_hex (DH.derive_key ?diversification s (int ()))
  (* bignum *)
  | "bn" -> let open CryptokitBignum in (match next () with
      | "conv" -> let numbits = opt int in to_hex (to_bytes ?numbits (bg ()))
      | "add" -> let a = bg () in bs (add a (bg ())) | "sub" -> let a = bg () in bs (sub a (bg ()))
      | "mult" -> let a = bg () in bs (mult a (bg ())) | "div" -> let a = bg () in bs (div a (bg ()))
      | "mod" -> let a = bg () in bs (mod_ a (bg ())) | "lcm" -> let a = bg () in bs (lcm a (bg ()))
      | "cmp" -> let a = bg () in string_of_int (compare a (bg ()))
      | "rp" -> let a = bg () in string_of_bool (relative_prime a (bg ()))
      | "pow" -> let a = bg () in let b = bg () in bs (mod_power a b (bg ()))
      | "crt" -> let a = bg () in let p = bg () in let q = bg () in let dp = bg () in let dq = bg () in bs (mod_power_CRT a p q dp dq (bg ()))
      | "inv" -> let a = bg () in bs (mod_inv a (bg ()))
      | "rnd" -> let r = rng () in let odd = opt bool in bs (random ~rng:r#random_bytes ?odd (int ()))
      | "prime" -> let r = rng () in bs (random_prime ~rng:r#random_bytes (int ()))
      | "wipe" -> let a = bg () in wipe a; bs a
      | s -> raise (Bad s))
  | "modpow" -> let a = str () in let b = str () in to_hex (mod_power a b (str ()))
  | "modmul" -> let a = str () in let b = str () in to_hex (mod_mult a b (str ()))
  (* utilities *)
  | "seq" -> let a = str () in string_of_bool (string_equal a (str ()))
  | "beq" -> let a = str () in string_of_bool (bytes_equal (Bytes.of_string a) (Bytes.of_string (str ())))
  | "xb" -> let s = fill (int ()) in let so = int () in let d = fill (int ()) in let d_o = int () in xor_bytes s so d d_o (int ()); "ok"
  | "xs" -> let s = str () in let so = int () in let d = fill (int ()) in let d_o = int () in
      let s' = Bytes.to_string (Bytes.of_string s) in xor_string s so d d_o (int ()); if s = s' then "ok" else "source-modified"
  | "wb" -> let b = fill (int ()) in wipe_bytes b; to_hex (Bytes.to_string b)
  | "ws" -> let s = Bytes.to_string (Bytes.of_string (str ())) in wipe_string s; to_hex s
  (* state inspection *)
  | "dump" -> (match next () with
      | "B" -> dump (Obj.repr (Hashtbl.find bt (int ()))) | "T" -> dump (Obj.repr (Hashtbl.find tt (int ())))
      | "H" -> dump (Obj.repr (Hashtbl.find ht (int ()))) | "A" -> dump (Obj.repr (Hashtbl.find at (int ())))
      | "R" -> dump (Obj.repr (Hashtbl.find rt (int ()))) | "S" -> dump (Obj.repr (Hashtbl.find st (int ())))
      | s -> raise (Bad s))
  | "gc" -> Gc.compact (); "ok"
  | "minor" -> Gc.minor (); "ok"
  | "at" -> (* run the command with about k words left in the minor heap *)
      let k = int () in
      Gc.minor ();
      let free = (Gc.get ()).Gc.minor_heap_size in
      let target = free - k in
      let m0 = Gc.minor_words () in
      while Gc.minor_words () -. m0 < float_of_int target -. 10. do ignore (Sys.opaque_identity (ref 0)) done;
      exec ()
  | "atall" -> (* the command at every fill level lo..hi of the minor heap; all answers must agree *)
      let lo = int () in let hi = int () in let cmd = !toks in
      let first = ref "" and bad = ref "" in
      for k = lo to hi do
        if !bad = "" then begin
          toks := ("at" :: string_of_int k :: cmd);
          let r = exec () in
          if k = lo then first := r else if r <> !first then bad := sp "level %d: %s" k r end
      done;
      if !bad = "" then !first else !bad
  | "hc" -> (* hash of data fed in the given cuts: n c1 .. cn ctor data *)
      let n = int () in let cuts = List.init n (fun _ -> int ()) in
      let h = hash () in let s = str () in
      let pos = ref 0 in
      List.iter (fun c -> h#add_string (String.sub s !pos c); pos := !pos + c) cuts;
      h#add_string (String.sub s !pos (String.length s - !pos));
      let r = h#result in h#wipe; to_hex r
  | "hcall" -> (* every cut point of the data into two pieces, then last byte alone: all results must agree *)
      let tk = !toks in
      let h0 = hash () in let s = str () in let rest = !toks in
      let r0 = hash_string h0 s in let n = String.length s in let bad = ref "" in
      for c = 0 to n do
        if !bad = "" then begin
          List.iter (fun cuts ->
            toks := tk; let h = hash () in let pos = ref 0 in
            List.iter (fun c -> h#add_string (String.sub s !pos c); pos := !pos + c) cuts;
            if !bad = "" && h#result <> r0 then bad := "differs for pieces " ^ String.concat "+" (List.map string_of_int cuts))
          ([[c; n - c]; [c; 0; n - c]] @ (if c + 1 <= n then [[c; 1; n - c - 1]; List.init (n - c) (fun _ -> 1) |> fun l -> if n - c <= 3 then c :: l else [n]] else [])) end
      done;
      toks := rest;
      if !bad = "" then to_hex r0 else !bad
  | "alarm" -> ignore (Unix.alarm (int ())); "ok"
  | s -> raise (Bad s)
let () =
  try while true do
    let l = input_line stdin in
    toks := List.filter (fun s -> s <> "") (String.split_on_char ' ' l);
    let r = try let r = exec () in if !toks <> [] then "!BAD:extra tokens" else r with e -> "!" ^ exname e in
    print_string r; print_char '\n'; flush stdout
  done with End_of_file -> ()
