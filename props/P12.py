title = "The translation server serves concurrent users independently and safely"
statement = """For every set of clients, interleaving of their requests and behaviour of other clients (fragmented sends, disconnects at any
point, malformed lengths, bytes, markup or requests), the server never crashes, races or deadlocks; every well-formed request is answered with what it
would be answered alone; strings of any length arrive unchanged; every online training acknowledged is in the models printed
exactly once; and END lets accepted requests finish with their answers, is acknowledged, and ends the server with status 0."""
over = ["schedules", "inputs", "histories", "faults"]
quant = "all client behaviours, request interleavings and shutdown points"
tests = "The tests start the server and send one request after another from one client; no test has two clients, a bad client, or a request pending at shutdown."
files = ["src/stack_dec/thot_server.cc", "src/stack_dec/thot_client.cc", "src/stack_dec/ThotDecoder.cc", "src/stack_dec/ThotDecoderClient.cc",
         "src/nlp_common/BasicSocketUtils.cc", "src/nlp_common/ctimer.c", "src/nlp_common/StdCerrThreadSafePrint.h"]
mech = [("accepting and dispatching", "src/stack_dec/thot_server.cc"), ("mutual exclusion of requests", "src/stack_dec/ThotDecoder.cc"),
        ("framing", "src/nlp_common/BasicSocketUtils.cc")]
technique = "ThreadSanitizer and ASan+UBSan builds of the server under concurrent, hostile and shutdown workloads; answers compared with the sequential ones, learned counts with the acknowledged requests"
note = "A client that connects and sends nothing blocks the accept loop: known finding silent-client. Loopback connections only."
