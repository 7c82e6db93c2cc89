import vb, glob
MM = vb.MM
VS = vb.SIM + 'VariableServer/'
H = [dict(MM, name='vs', main=['C17_vs.cc'], srcs=MM['srcs'] + [vb.SIM + 'CheckPointRestart/stl_type_name_convert.cpp'] + sorted(glob.glob(VS + '*.cpp')) + [vb.UTL + 'connection_handlers', vb.SIM + 'ThreadBase', vb.SIM + 'SimObject/JobData.cpp', vb.SIM + 'Executive/ExecutiveException.cpp', vb.UTL + 'comm/src/trick_byteswap.c'],
     flags=['-O1'], asan=False, soft=True, main_flags=['-fno-access-control'], src_flags=['-fsanitize=thread', '--param=tsan-distinguish-volatile=1'], timeout=20, max_seconds=100, max_seconds_thorough=850,
    bounds='real VariableServer, session threads and SysThread/ThreadBase, one or two clients, 19 scripted configurations (lists changed while copied in every copy/write mode, var_send, send-once, units, pause, exit, exception, send failure, differing cycles, freeze, checkpoint reload suspending at frame 1 or 2), 1-5 frames; every schedule with at most 1 deviation from round-robin (2 in configurations 2,6,9,12,13,14), points at locks, condition variables, sleeps, sends, reads, commands, copies, formatting and at accesses to the simulation variables and job times; thorough: 2 deviations everywhere, 3 in 6,9,13,14')]
ASSUMPTIONS = ['sequentially consistent memory between scheduling points', 'the input processor is replaced by a command interpreter which calls the var_* functions; client connections are in memory', 'simulation data is stored by the simulation thread while it runs, clients in asynchronous mode therefore sample variables one by one, each at the time it is copied']
