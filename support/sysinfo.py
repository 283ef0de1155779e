"""Copies the three functions of src/async_tls.c that have nothing to do with TLS
(events_hostname, events_uname, events_sysname) and their buffers to a file of their own.
usage: sysinfo.py async_tls.c OUT.c"""
import re
import sys

src = open(sys.argv[1]).read()
out = ['#include "events_internal.h"\n#include <netdb.h>\n']
for var in ("events_powered_by", "events_host", "events_system_name"):
    m = re.search(r"^static char %s\[.*?;" % var, src, re.M)
    if not m:
        sys.exit("sysinfo.py: no %s in async_tls.c" % var)
    out.append(m.group(0) + "\n")
out.append("const char *events_uname(void);\nconst char *events_sysname(void);\n")
for fn in ("events_hostname", "events_uname", "events_sysname"):
    m = re.search(r"^const char \*%s\(void\) \{.*?^\}" % fn, src, re.M | re.S)
    if not m:
        sys.exit("sysinfo.py: no %s() in async_tls.c" % fn)
    line = src.count("\n", 0, m.start()) + 1
    out.append('#line %d "%s"\n%s\n' % (line, sys.argv[1], m.group(0)))
# accept_client_handler() in events.c closes its socket with tls_closer(). Without TLS,
# events_fd_t.tls is always null, so this is the branch of it that remains.
out.append("""#line 1 "notls-tls_closer"
void tls_closer(int socket) {
	if (!socket)
		return;

	close(socket);
}
""")
open(sys.argv[2], "w").write("\n".join(out))
