#include "events_internal.h"
#include <netdb.h>

static char events_powered_by[MAXHOSTNAMELEN] = {0};

static char events_host[MAXHOSTNAMELEN] = {0};

static char events_system_name[_UTSNAME_LENGTH + 1] = {0};

const char *events_uname(void);
const char *events_sysname(void);


const char *events_hostname(void) {
	if (str_is_empty((const char *)events_host)) {
		if (gethostname(events_host, sizeof(events_host)) != 0) {
			perror("gethostname");
			if (!snprintf(events_host, sizeof(events_host), "localhost"))
				return "localhost";
		}
	}

	return (const char *)events_host;
}


const char *events_uname(void) {
	if (str_is_empty((const char *)events_powered_by)) {
		struct utsname buffer[1];
		if (uname(buffer) == -1)
			return null;

		snprintf(events_powered_by, MAXHOSTNAMELEN, "%zu Cores, %s %s %s",
			thrd_cpu_count(), buffer->sysname, buffer->machine, buffer->release);

		snprintf(events_system_name, sizeof(events_system_name), "%s", buffer->sysname);
	}

	return (const char *)events_powered_by;
}


const char *events_sysname(void) {
	if (str_is_empty((const char *)events_system_name))
		events_uname();

	return (const char *)events_system_name;
}

#line 1 "notls-tls_closer"
void tls_closer(int socket) {
	if (!socket)
		return;

	close(socket);
}
