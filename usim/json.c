#include "json.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
static const char *p;
static json_t *J;
static void ws(void) { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++; }
static int str(char *o, size_t n)
{
	size_t k = 0;
	if (*p != '"') return -1;
	for (p++; *p && *p != '"'; p++) { if ((unsigned char)*p < 0x20 || *p == '\\') return -1; if (k + 1 < n) o[k++] = *p; }
	if (*p != '"') return -1;
	p++; o[k] = 0; return 0;
}
static int obj(const char *pre)
{
	if (*p != '{') return -1;
	p++; ws();
	if (*p == '}') { p++; return 0; }
	for (;;) {
		char k[48], full[96];
		ws(); if (str(k, sizeof k)) return -1;
		snprintf(full, sizeof full, "%.40s%s%.48s", pre, *pre ? "." : "", k);
		ws(); if (*p++ != ':') return -1;
		ws();
		if (*p == '{') { if (obj(full)) return -1; }
		else {
			char v[96]; int s = 0;
			if (*p == '"') { s = 1; if (str(v, sizeof v)) return -1; }
			else {
				size_t n = strcspn(p, ",}\n \t"); if (!n || n > 90) return -1;
				memcpy(v, p, n); v[n] = 0; p += n;
				if (strcmp(v, "true") && strcmp(v, "false") && strcmp(v, "null")) {
					char *e; strtoll(v, &e, 10); if (*e) return -1;
				}
			}
			if (J->n < 96) {
				for (int i = 0; i < J->n; i++) if (!strcmp(J->kv[i].key, full)) return -1;
				snprintf(J->kv[J->n].key, 96, "%s", full); snprintf(J->kv[J->n].val, 96, "%s", v); J->kv[J->n].str = s; J->n++;
			}
		}
		ws();
		if (*p == ',') { p++; continue; }
		if (*p == '}') { p++; return 0; }
		return -1;
	}
}
int json_parse(const char *s, json_t *j)
{
	J = j; j->n = 0; p = s; ws();
	if (obj("")) return -1;
	ws();
	return *p ? -1 : 0;
}
const char *json_get(const json_t *j, const char *key)
{
	for (int i = 0; i < j->n; i++) if (!strcmp(j->kv[i].key, key)) return j->kv[i].val;
	return NULL;
}
long long json_num(const json_t *j, const char *key, long long d)
{
	const char *v = json_get(j, key);
	if (!v) return d;
	if (!strcmp(v, "true")) return 1;
	if (!strcmp(v, "false")) return 0;
	return strtoll(v, NULL, 10);
}
