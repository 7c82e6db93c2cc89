import vb, glob
H = [dict(name='msg', main=['C26_msg.cc'], srcs=[vb.SIM + 'Message', vb.SIM + 'ThreadBase'],
     flags=['-O1'], asan=False, soft=True, libs=['-lm'], main_flags=['-fno-access-control'], src_flags=['-fsanitize=thread', '--param=tsan-distinguish-volatile=1'], timeout=20, max_seconds=100, max_seconds_thorough=850,
     bounds='5 configurations of publishing, subscribing/unsubscribing, connecting and printing threads with shutdown and late messages: every schedule with at most 2 (3 in configurations 1, 3, 4; thorough one more) deviations from round-robin at locks, prints, sends, subscriber updates and accesses to the subscriber list, connection list and ring pointers; 8 kinds of subscribers x every history of 4 (3 for files; thorough one more) of subscribe, unsubscribe, enable, disable, colour, find and publish at 12 levels; 15 texts (percent signs, up to 20479 characters) x 4 interfaces x 8 subscribers, no subscriber, no publisher; headers: 8 tic values x 11 times x 12 levels x dates and names')]
ASSUMPTIONS = ['sequentially consistent memory between scheduling points', 'sockets are replaced by recording devices']
