"""planted bugs: id -> property, edits, demonstration"""
PRE = r'''open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
'''
K16 = 'let k16 = String.init 16 (fun i -> Char.chr (i * 7 + 3))\n'
S = {}
def seed(i, prop, edits, demo, needs, breaks, **kw): S[i] = dict(property=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)
CK = 'src/cryptokit.ml'
seed('c10-chacha-carry', 'C10', [('src/chacha20.c', 'if (ctx->iv_length == 8) ++ ctx->input[13];', 'if (ctx->iv_length == 8 && ctx->next < 64) ++ ctx->input[13];')],
 r'''let k = String.make 32 'k' and iv = "12345678"
let ks ctr n = transform_string (Cipher.chacha20 ~iv ~ctr k Cipher.Encrypt) (String.make n '\000')
let () = let a = ks 0xFFFF_FFFEL 256 in
  check "block after the 32-bit carry" (String.sub a 128 64 = ks 0x1_0000_0000L 64);
  check "block after that" (String.sub a 192 64 = ks 0x1_0000_0001L 64)''',
 'a stream that crosses a multiple of 2^32 blocks (initial counter near 2^32)', 'the 64-bit block counter of ChaCha20 no longer carries into its high word, so the keystream repeats from a much earlier position')
seed('c07-ctrn-carry', 'C07', [(CK, 'increment_counter iv (blocksize - nincr) (blocksize - 1);', 'increment_counter iv (min (blocksize - nincr) (nincr + 8)) (blocksize - 1);')],
 K16 + r'''let () =
  let iv = "\001\002\003\004\005\006\007\008\009\010\011\012\255\255\255\255" in
  let c = new Block.aes_encrypt k16 in
  let e s = let b = Bytes.of_string s in c#transform b 0 b 0; Bytes.to_string b in
  let r = transform_string (Cipher.aes ~mode:(Cipher.CTR_N 2) ~iv k16 Cipher.Encrypt) (String.make 48 '\000') in
  let pre = String.sub iv 0 14 in
  check "block 1" (String.sub r 16 16 = e (pre ^ "\000\000")); check "block 2" (String.sub r 32 16 = e (pre ^ "\000\001"))''',
 'CTR_N with n < 4 and an IV whose last n bytes wrap during the message', 'the carry of the n-byte counter runs into the fixed part of the IV')
seed('c09-growth', 'C09', [(CK, "          Bytes.blit obuf obeg newbuf 0 (oend - obeg);\n          obuf <- newbuf;\n          oend <- oend - obeg;\n          obeg <- 0", "          Bytes.blit obuf 0 newbuf 0 oend;\n          obuf <- newbuf")],
 r'''let () =
  let c = Cipher.arcfour "key" Cipher.Encrypt and d = String.init 4000 (fun i -> Char.chr (i * 13 land 255)) in
  let all = transform_string (Cipher.arcfour "key" Cipher.Encrypt) d in
  let out = Buffer.create 4000 in
  (try
    let pos = ref 0 in
    while !pos < 4000 do
      let n = min (if !pos = 0 then 256 else 260) (4000 - !pos) in
      c#put_substring (Bytes.of_string d) !pos n; pos := !pos + n;
      for _ = 1 to 10 do Buffer.add_char out c#get_char done
    done;
    Buffer.add_string out c#get_string
  with _ -> fail "exception");
  check "stream" (Buffer.contents out = all)''',
 'output drained byte by byte (get_char) before a put that makes the output buffer grow', 'growing the output buffer keeps the already consumed prefix, and the room computed for the new data does not count it: data no longer fits or is lost')
seed('c08-strip', 'C08', [(CK, 'for i = blocksize - n to blocksize - 2 do', 'for i = max 1 (blocksize - n) to blocksize - 2 do')],
 r'''let () =
  let b = Bytes.make 16 '\016' in check "good" (Padding.length#strip b = 0);
  Bytes.set b 0 '\000';
  check "bad first byte" (raises (Error Bad_padding) (fun () -> Padding.length#strip b))''',
 'a final block made of padding only whose first byte is wrong', 'stripping accepts a full block of padding with a wrong first byte')
seed('c18-ctr-limit', 'C18', [(CK, 'if nincr < 8 then Int64.(shift_left 1L (nincr * 8)) else 0L', 'if nincr < 8 then Int64.(shift_left 1L (nincr * 8 + nincr / 2)) else 0L')],
 r'''let () =
  let toy = object method blocksize = 8 method transform (s: bytes) so d d_o = Bytes.blit s so d d_o 8 method wipe = () end in
  let c = new Block.ctr ~inc:2 toy in
  let b = Bytes.make 8 '\000' in
  let seen = Hashtbl.create 70000 in
  let r = try for _ = 1 to 70000 do
      c#transform (Bytes.make 8 '\000') 0 b 0;
      let k = Bytes.to_string b in
      if Hashtbl.mem seen k then fail "keystream block reused"; Hashtbl.add seen k ()
    done; false with Error Message_too_long -> true in
  check "limit" r''',
 'CTR_N with n >= 2 and a message longer than 2^(8n) blocks', 'the counter wraps and keystream blocks are reused without the message-too-long error')
seed('c14-mac-char', 'C14', [(CK, "        xor_bytes iv 0 buffer 0 blocksize;\n        cipher#transform buffer 0 iv 0;\n        Bytes.set buffer 0 c;\n        used <- 1", "        cipher#transform buffer 0 buffer 0;\n        xor_bytes buffer 0 iv 0 blocksize;\n        Bytes.set buffer 0 c;\n        used <- 1")],
 K16 + r'''let () =
  let d = String.init 100 (fun i -> Char.chr (i * 3 land 255)) in
  let a = hash_string (MAC.aes ~pad:Padding.length k16) d in
  let h = MAC.aes ~pad:Padding.length k16 in
  String.iter h#add_char d; check "char by char" (h#result = a)''',
 'a message of more than one block added character by character', 'the CBC-MAC of data fed through add_char chains the blocks wrongly')
seed('c23-pad', 'C23', [(CK, "          if finished then raise(Error Bad_encoding);\n          ibuf.(ipos) <- n;", "          if finished && ipos = 0 then raise(Error Bad_encoding);\n          ibuf.(ipos) <- n;")],
 r'''let dec s = transform_string (Base64.decode ()) s
let () = check "ok" (dec "YQ==" = "a");
  check "data after padding" (raises (Error Bad_encoding) (fun () -> dec "YQ==YQ=="));
  check "data after padding 2" (raises (Error Bad_encoding) (fun () -> dec "YWI=YWI="))''',
 'Base64 text continued after padding in the middle of a group', 'decoding accepts data after the padding and returns bytes instead of the bad-encoding error')
seed('c26-short-read', 'C26', [(CK, 'if n < len then self#random_bytes buf (ofs + n) (len - n)', 'if n < len then self#random_bytes buf (ofs + n) (min n (len - n))')],
 r'''let () =
  let (rd, wr) = Unix.pipe () in
  let dir = Filename.temp_file "demo" "" in Sys.remove dir; Unix.mkdir dir 0o700;
  let f = Filename.concat dir "fifo" in Unix.mkfifo f 0o600;
  match Unix.fork () with
  | 0 -> let fd = Unix.openfile f [Unix.O_WRONLY] 0 in
      (try ignore (Unix.write fd (Bytes.make 10 'a') 0 10); Unix.sleepf 0.3;
           ignore (Unix.write fd (Bytes.make 50 'b') 0 50) with _ -> ()); Unix._exit 0
  | pid ->
      let r = Random.device_rng f in
      let b = Bytes.make 40 '\000' in
      (try r#random_bytes b 0 40 with _ -> ());
      Unix.kill pid 9; ignore (Unix.waitpid [] pid); Sys.remove f; Unix.rmdir dir;
      check "all bytes filled" (Bytes.to_string b = String.make 10 'a' ^ String.make 30 'b')''',
 'a random device that returns fewer bytes than half of what was asked', 'the end of the requested range is left unfilled, silently')
seed('c27-cfb-wipe', 'C27', [(CK, "      Bytes.blit src src_off dst dst_off chunksize;\n      xor_bytes out 0 dst dst_off chunksize\n    method wipe =\n      cipher#wipe;\n      wipe_bytes iv;\n      wipe_bytes out", "      Bytes.blit src src_off dst dst_off chunksize;\n      xor_bytes out 0 dst dst_off chunksize\n    method wipe =\n      cipher#wipe;\n      wipe_bytes iv;\n      Bytes.fill out 0 chunksize '\\000'")],
 r'''let () =
  let bufs = ref [] in
  let toy = object method blocksize = 8
    method transform (s: bytes) so d d_o = bufs := d :: s :: !bufs; for i = 0 to 7 do Bytes.set d (d_o + i) (Char.chr (Char.code (Bytes.get s (so + i)) lxor 0x5a)) done
    method wipe = () end in
  let c = new Block.cfb_decrypt ~iv:"abcdefgh" 3 toy in
  let b = Bytes.make 8 'x' in
  c#transform b 0 b 0; c#wipe;
  List.iter (fun x -> if x != b then check "wiped" (Bytes.to_string x = String.make (Bytes.length x) '\000')) !bufs''',
 'CFB-n decryption with n smaller than the block size, then wipe', 'part of the keystream block stays in memory after wipe')
seed('c31-bounded', 'C31', [(CK, "      let r = input ic ibuf 0 (min 256 numleft) in\n      if r = 0 then raise End_of_file;\n      hash#add_substring ibuf 0 r;\n      hash_bounded (numleft - r)", "      let r = input ic ibuf 0 (min 256 numleft) in\n      if r = 0 then raise End_of_file;\n      hash#add_substring ibuf 0 (max r (min numleft 256));\n      hash_bounded (numleft - max r (min numleft 256))")],
 r'''let () =
  let (rd, wr) = Unix.pipe () in
  match Unix.fork () with
  | 0 -> Unix.close rd; ignore (Unix.write wr (Bytes.make 100 'a') 0 100); Unix.sleepf 0.3; ignore (Unix.write wr (Bytes.make 300 'b') 0 300); Unix._exit 0
  | pid -> Unix.close wr; let ic = Unix.in_channel_of_descr rd in
      let h = (try hash_channel (Hash.sha256 ()) ~len:300 ic with End_of_file -> "") in
      ignore (Unix.waitpid [] pid);
      check "hash" (h = hash_string (Hash.sha256 ()) (String.make 100 'a' ^ String.make 200 'b'))''',
 'a channel that returns short reads (pipe, socket) and an explicit length', 'stale buffer bytes are hashed in place of bytes not yet read')
seed('c16-des-range', 'C16', [(CK, "  object\n    method blocksize = 8\n    method transform src src_ofs dst dst_ofs =\n      if src_ofs < 0 || src_ofs > Bytes.length src - 8\n      || dst_ofs < 0 || dst_ofs > Bytes.length dst - 8\n      then invalid_arg \"triple_des#transform\";\n      des_transform ckey1 src src_ofs dst dst_ofs;\n      des_transform ckey2 dst dst_ofs dst dst_ofs;\n      des_transform ckey3 dst dst_ofs dst dst_ofs\n    method wipe =\n      wipe_bytes ckey1;\n      wipe_bytes ckey2;\n      wipe_bytes ckey3\n  end\n\n(* Chaining", "  object\n    method blocksize = 8\n    method transform src src_ofs dst dst_ofs =\n      if src_ofs < 0 || src_ofs + 8 > Bytes.length src\n      || dst_ofs < 0 || dst_ofs + 8 > Bytes.length src\n      then invalid_arg \"triple_des#transform\";\n      des_transform ckey1 src src_ofs dst dst_ofs;\n      des_transform ckey2 dst dst_ofs dst dst_ofs;\n      des_transform ckey3 dst dst_ofs dst dst_ofs\n    method wipe =\n      wipe_bytes ckey1;\n      wipe_bytes ckey2;\n      wipe_bytes ckey3\n  end\n\n(* Chaining")],
 r'''let () =
  let c = new Block.triple_des_decrypt (String.make 24 'k') in
  let src = Bytes.make 64 's' and dst = Bytes.make 12 'd' in
  check "dst range" (match c#transform src 0 dst 5 with () -> false | exception Invalid_argument _ -> true);
  check "unchanged" (Bytes.to_string dst = String.make 12 'd')''',
 'a destination buffer shorter than the source buffer', 'Triple-DES decryption checks the destination offset against the wrong buffer and writes outside it')
seed('c22-to-bytes', 'C22', [('src/cryptokitBignum.ml', 'let mask = 1 lsl ((numbits - 1) land 7) in', 'let mask = 1 lsl (max ((numbits - 1) land 7) 1) in')],
 r'''module Bn = CryptokitBignum
let () =
  let rng = Random.pseudo_rng (String.make 20 's') in
  for n = 1 to 80 do
    let ok = (try ignore (Bn.random ~rng:(rng#random_bytes) n); true with _ -> false) in
    check (Printf.sprintf "random %d bits" n) ok
  done''',
 'a bit length that is 1 modulo 8', 'random numbers of 8k+1 bits get one bit too many (an assertion failure)')
seed('c13-hmac-key', 'C13', [(CK, 'if String.length key > H.blocksize\n        then hash_string (new H.h) key', 'if String.length key >= H.blocksize\n        then hash_string (new H.h) key')],
 r'''let h s = hash_string (Hash.sha256 ()) s
let hm k m = let k = if String.length k > 64 then h k else k in
  let x b = String.init 64 (fun i -> Char.chr (b lxor (if i < String.length k then Char.code k.[i] else 0))) in
  h (x 0x5c ^ h (x 0x36 ^ m))
let () = List.iter (fun n -> let k = String.make n 'k' in check (Printf.sprintf "key %d" n) (hash_string (MAC.hmac_sha256 k) "msg" = hm k "msg")) [0; 1; 63; 64; 65; 200]''',
 'a key exactly as long as the hash block', 'keys of exactly one hash block are hashed first, giving another MAC')
seed('c20-derive', 'C20', [(CK, 'derive (pos + String.length h) (counter + 1)', 'derive (pos + String.length h) (if counter = 9 then 11 else counter + 1)')],
 r'''let () = let n = 400 in
  let r = DH.derive_key ~diversification:"d" "secret" n in
  let w = String.concat "" (List.init 13 (fun i -> hash_string (Hash.sha256 ()) ("d" ^ "secret" ^ string_of_int (i + 1)))) in
  check "derive" (r = String.sub w 0 n)''',
 'a derived key longer than 288 bytes', 'the tenth hash of the key derivation sequence is skipped')
seed('c11-gcm-iv', 'C11', [(CK, '    Bytes.set_int64_be buf 8 (Int64.mul (Int64.of_int (String.length iv)) 8L);\n    ghash_block h mac buf 0 16;', '    Bytes.set_int64_be buf 8 (Int64.mul (Int64.of_int (String.length iv land 0xFF)) 8L);\n    ghash_block h mac buf 0 16;')],
 r'''let () =
  (* NIST: GHASH-derived counter; compare with an independent computation *)
  let k = String.make 16 'k' in let iv = String.init 300 (fun i -> Char.chr (i land 255)) in
  let aes = new Block.aes_encrypt k in
  let e s = let b = Bytes.of_string s in aes#transform b 0 b 0; Bytes.to_string b in
  let bit s i = (Char.code s.[i / 8] lsr (7 - i mod 8)) land 1 in
  let mul x y = let z = Bytes.make 16 '\000' and v = Bytes.of_string y in
    for i = 0 to 127 do
      if bit x i = 1 then xor_bytes v 0 z 0 16;
      let lsb = Char.code (Bytes.get v 15) land 1 in
      for j = 15 downto 0 do Bytes.set v j (Char.chr ((Char.code (Bytes.get v j) lsr 1) lor (if j > 0 then (Char.code (Bytes.get v (j - 1)) land 1) lsl 7 else 0))) done;
      if lsb = 1 then Bytes.set v 0 (Char.chr (Char.code (Bytes.get v 0) lxor 0xe1))
    done; Bytes.to_string z in
  let h = e (String.make 16 '\000') in
  let ghash s = let y = ref (String.make 16 '\000') in
    for i = 0 to String.length s / 16 - 1 do let b = Bytes.of_string (String.sub s (16 * i) 16) in xor_string !y 0 b 0 16; y := mul (Bytes.to_string b) h done; !y in
  let len n = let b = Bytes.make 8 '\000' in Bytes.set_int64_be b 0 (Int64.of_int (8 * n)); Bytes.to_string b in
  let pad s = s ^ String.make ((16 - String.length s mod 16) mod 16) '\000' in
  let j0 = ghash (pad iv ^ String.make 8 '\000' ^ len (String.length iv)) in
  let tag = ghash (String.make 8 '\000' ^ len 0) in
  let t = Bytes.of_string (e j0) in xor_string tag 0 t 0 16;
  check "tag" (auth_transform_string (AEAD.aes_gcm ~iv k AEAD.Encrypt) "" = Bytes.to_string t)''',
 'an IV of 256 bytes or more', 'the initial counter is derived from a truncated IV length')
seed('c24-hex-blank', 'C24', [(CK, "  | 'a' .. 'f' -> Char.code c - 97 + 10\n  | ' '|'\\t'|'\\n'|'\\r' -> -1", "  | 'a' .. 'f' -> Char.code c - 97 + 10\n  | '\\t' .. '\\r' | ' ' -> -1")],
 r'''let dec s = transform_string (Hexa.decode ()) s
let () = check "tab" (dec "61\t62" = "ab"); check "vt" (raises (Error Bad_encoding) (fun () -> dec "61\01162")); check "ff" (raises (Error Bad_encoding) (fun () -> dec "61\01262"))''',
 'a vertical tab or form feed in hexadecimal text', 'characters other than blanks are skipped instead of rejected')
seed('c29-then-hash', 'C29', [(CK, "    method finish_and_get_tag =\n      tr#finish; self#transfer; h#result", "    method finish_and_get_tag =\n      let n = tr#available_output in\n      tr#finish; if tr#available_output >= 2 || n > 0 then self#transfer; h#result")],
 r'''let () =
  let t = transform_then_hash (Base64.encode_compact_pad ()) (Hash.sha1 ()) in ignore t;
  let d = Zlib.compress () in
  let mk () = Base64.decode () in
  let t = transform_then_hash (mk ()) (Hash.sha1 ()) in
  t#put_string "YQ==";
  let tag = t#finish_and_get_tag in
  let out = t#get_string in
  check "output" (out = "a"); check "tag" (tag = hash_string (Hash.sha1 ()) "a")''',
 'a transform whose finish produces exactly one byte of output', 'the last byte of output is neither returned nor authenticated')
seed('c02-blake3-cv', 'C02', [('src/blake3.c', '#define IS_X86_NEVER', '#define IS_X86_NEVER')], 'let () = ()', '', '')
del S['c02-blake3-cv']
SEEDS = S
