import vb
H = [dict(name='conn', main='C16_conn.cc', srcs=[vb.UTL + 'connection_handlers'], asan=True, flags=['-O1'], timeout=30, max_seconds=150, max_seconds_thorough=840,
          bounds='every stream of up to 6 (thorough 8) bytes of text, newline and carriage return in every segmentation, read limits 4, 8 and default, with the connection ending at any receive; up to 3 messages of up to 4 bytes (NULs included) with up to 3 (4) short, would-block or broken sends; up to 3 (4) datagrams of 8 forms from two senders (and itself for multicast), with a failing receive; every single failing set-up call for 6 host names')]
ASSUMPTIONS = ['no NUL bytes inside commands', 'commands are shorter than the read limit', 'a receive after a peek returns the bytes peeked', 'real sockets are replaced through SystemInterface and interposed libc calls']
