import vb
H = [dict(name='comm', main='C18_comm.cc', srcs=[vb.UTL + 'comm/src'], asan=True, flags=['-O1'], timeout=30, max_seconds=120, max_seconds_thorough=840,
          bounds='every sequence of 2 (thorough 3) operations (reads of 0/1/3/8 bytes, writes of 1/5, byte-swapped read/write of a 16-byte record, isValid, pending/listen, disconnect, mode change with and without ioctl failure, disable, time limit) on stream and datagram devices in the four modes; each socket call transfers all, one or all but one byte, is interrupted, would block, finds the peer closed or fails, with up to 4 (5) such departures per history, and time passes or not before each call of a timed transfer; accept and connect handshakes with up to 3 (4) departures')]
ASSUMPTIONS = ['little-endian host', 'send during a handshake is never short (82 bytes into an empty socket buffer)', 'no zero-length datagrams', 'socket calls are replaced by a scripted peer; multicast connection set-up is not covered']
