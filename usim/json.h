#ifndef V_JSON_H
#define V_JSON_H
/* Strict little JSON reader: flattens to dotted keys. Returns 0 if the text is one valid JSON object. */
typedef struct { char key[96]; char val[96]; int str; } jkv_t;
typedef struct { jkv_t kv[96]; int n; } json_t;
int json_parse(const char *s, json_t *j);
const char *json_get(const json_t *j, const char *key);
long long json_num(const json_t *j, const char *key, long long dflt);
#endif
