open Cryptokit
let fail s = prerr_endline ("FAIL: " ^ s); exit 1
let check s b = if not b then fail s
let hex s = transform_string (Hexa.encode ()) s
let unhex s = transform_string (Hexa.decode ()) s
let raises e f = match f () with _ -> false | exception x -> x = e
let () =
  let (rd, wr) = Unix.pipe () in
  let dir = Filename.temp_file "demo" "" in Sys.remove dir; Unix.mkdir dir 0o700;
  let f = Filename.concat dir "fifo" in Unix.mkfifo f 0o600;
  match Unix.fork () with
  | 0 -> let fd = Unix.openfile f [Unix.O_WRONLY] 0 in
      (try ignore (Unix.write fd (Bytes.make 10 'a') 0 10); Unix.sleepf 0.3;
           ignore (Unix.write fd (Bytes.make 50 'b') 0 50) with _ -> ()); Unix._exit 0
  | pid ->
      let r = Random.device_rng f in
      let b = Bytes.make 40 '\000' in
      (try r#random_bytes b 0 40 with _ -> ());
      Unix.kill pid 9; ignore (Unix.waitpid [] pid); Sys.remove f; Unix.rmdir dir;
      check "all bytes filled" (Bytes.to_string b = String.make 10 'a' ^ String.make 30 'b')