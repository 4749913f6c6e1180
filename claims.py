S = "Every execution within the stated deviation bound of the real Server::start is run and judged; the environment (transport, processes, handlers, randomness) is a controlled stand-in and the client an independent implementation from the RFCs. Single-threaded executor, as the server requires."
F = "Every fault point and schedule within the stated bound of the real Server::start is run and judged; the environment (transport, processes, handlers, randomness) is a controlled stand-in and the client an independent implementation from the RFCs."
E = "Every input or operation history within the stated finite alphabet and length is given to the real code and compared with an independent reference written from the RFCs; no sampling."
P = "Every protocol history within the stated finite alphabet is run on the real binary, built from the working tree, as an unprivileged user; output bytes, files and exit status are compared with a reference model."
CLAIMS = {}
for i in range(1, 8): CLAIMS['C%02d' % i] = ('enum', E)
for i in range(8, 19): CLAIMS['C%02d' % i] = ('sched', S)
for i in range(19, 22): CLAIMS['C%02d' % i] = ('fault', F)
for i in range(22, 28): CLAIMS['C%02d' % i] = ('proc', P)
CLAIMS['C28'] = ('sched', S + " The memory the server holds is measured by an allocator that tags what is allocated inside its poll.")
CLAIMS['C29'] = ('sched', S)
CLAIMS['C30'] = ('proc', P + " The daemon's descriptors, children and processor time are read from /proc.")
