----------------------------- MODULE TransportTrace -----------------------------
(* Recorded exchanges against the reference. op "wrap": one exchange through some layers; op "posts": what an HTTP server saw of a whole conversation. *)
EXTENDS Transport, FuncTrace, Integers

Chk(ok, why) == IF ok THEN {} ELSE {why}
Result(r) == IF r.utf THEN Utf8(Decode(r.wire).v) ELSE Decode(r.wire).v
WrapBad(r) ==
  (IF r.fault = "reqerr" THEN {} ELSE
     Chk(Len(r.served) = 1, "the server does not receive exactly one request")
     \cup (IF r.served = <<>> THEN {} ELSE
           Chk(r.served[1].method = "POST" /\ r.served[1].path = r.path, "the message is not posted to the URL")
           \cup Chk(r.served[1].ctype = "application/vnd.hbci", "the content type is not that of HBCI messages")
           \cup Chk(r.served[1].body = Encode(r.msg), "the body sent is not the base64 encoding of the message")))
  \cup (IF r.fault \in {"close", "reset", "cut", "cutchunk", "reqerr"} THEN Chk(r.err # "", "a broken connection is not reported as an error")
        ELSE IF r.chain = "own" /\ r.status # 200 THEN {}
        ELSE IF r.status >= 400 THEN Chk(r.err # "", "an HTTP error status is not reported as an error")
        ELSE LET x == Decode(r.wire) IN
             IF ~x.ok THEN Chk(r.err # "", "an undecodable body is not reported as an error")
             ELSE IF r.err # "" THEN Chk(~x.clean \/ r.status # 200, "a correct reply is reported as an error")
             ELSE Chk(r.got = Result(r), "the reply handed to the client is not the decoded body"))

(* long bodies: groups of bytes and how often each is repeated *)
BulkBad(r) == Chk(Len(r.served) = 1 /\ r.served[1].method = "POST" /\ r.served[1].path = r.path, "the server does not receive exactly one request")
              \cup (IF r.served = <<>> THEN {} ELSE Chk(r.served[1].body = r.want, "the body sent is not the base64 encoding of the message"))
              \cup (IF r.err # "" THEN {"a correct reply is reported as an error"} ELSE Chk(r.got = r.res, "the reply handed to the client is not the decoded body"))

PostsBad(r) == UNION {Chk(r.posts[i].method = "POST", "a message is not posted") \cup Chk(r.posts[i].ctype = "application/vnd.hbci", "the content type is not that of HBCI messages")
                      \cup Chk(r.posts[i].body = Encode(r.posts[i].msg), "the body sent is not the base64 encoding of a message") : i \in 1..Len(r.posts)}

Verdict(r) == IF r.panic # "" THEN {"panic: " \o r.panic}
              ELSE CASE r.op = "wrap" -> WrapBad(r) [] r.op = "bulk" -> BulkBad(r) [] r.op = "posts" -> PostsBad(r)
=============================================================================
