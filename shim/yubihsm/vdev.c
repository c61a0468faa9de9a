// A software YubiHSM: keys, sessions and fault injection.
#include "yubihsm.h"
#include "vdev.h"
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>

struct yh_connector { char url[128]; int connected; char opt[3][64]; };
struct yh_session { int gen, live, authed, good; uint8_t ctx[YH_CONTEXT_LEN]; struct yh_session *next; };

#define NO 64
#define NG 256
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int gen, calls, fired, nfault, nth[8], frc[8], late, nobj, nsig, nalgs = 3, serial;
static uint8_t verb;
static char pass[256]; static size_t passlen;
static char logbuf[1 << 16]; static size_t logn;
static char bad[256];
static struct yh_session *pool; // of this device; never freed, so that a stale one is noticed
static struct { yh_object_descriptor d; uint8_t pub[256]; size_t publen; int pubalg; } obj[NO];
static struct { int id; uint8_t digest[32]; uint8_t der[256]; size_t n; } sigs[NG];

void vdev_reset(void) {
  pthread_mutex_lock(&mu);
  gen++; pool = NULL; calls = fired = nfault = late = nobj = nsig = 0; nalgs = 3; logn = 0; logbuf[0] = 0; bad[0] = 0;
  pthread_mutex_unlock(&mu);
}
void vdev_fault(int n, int rc) { nth[nfault] = calls + n; frc[nfault++] = rc; }
int vdev_fired(void) { return fired; }
int vdev_calls(void) { return calls; }
const char *vdev_log(void) { return logbuf; }
void vdev_clearlog(void) { logn = 0; logbuf[0] = 0; }
const char *vdev_misuse(void) { return bad; }
void vdev_password(const char *p, size_t n, int l) { memcpy(pass, p, n); passlen = n; late = l; }
void vdev_info(int n) { nalgs = n; }
void vdev_add(int id, int type, int alg, int domains, const uint8_t *caps, const char *label, int len,
              const uint8_t *pub, size_t publen, int pubalg) {
  yh_object_descriptor *d = &obj[nobj].d;
  memset(d, 0, sizeof *d);
  d->id = id; d->type = type; d->algorithm = alg; d->domains = domains; d->len = len;
  d->sequence = id & 0xff; d->origin = YH_ORIGIN_IMPORTED;
  memcpy(d->capabilities.capabilities, caps, 8);
  d->delegated_capabilities.capabilities[0] = id & 0xff;
  strncpy(d->label, label, YH_OBJ_LABEL_LEN);
  if (publen) memcpy(obj[nobj].pub, pub, publen);
  obj[nobj].publen = publen; obj[nobj].pubalg = pubalg;
  nobj++;
}
void vdev_remove(int id) {
  int j = 0;
  for (int i = 0; i < nobj; i++) if (obj[i].d.id != id) obj[j++] = obj[i];
  nobj = j;
}
void vdev_sig(int id, const uint8_t *digest, const uint8_t *der, size_t n) {
  int i;
  for (i = 0; i < nsig; i++) if (sigs[i].id == id && !memcmp(sigs[i].digest, digest, 32)) break;
  if (i == nsig) nsig++;
  sigs[i].id = id; memcpy(sigs[i].digest, digest, 32); memcpy(sigs[i].der, der, n); sigs[i].n = n;
}
static int count(int authed) {
  int n = 0;
  pthread_mutex_lock(&mu);
  for (yh_session *s = pool; s; s = s->next) n += s->live && (!authed || s->authed);
  pthread_mutex_unlock(&mu);
  return n;
}
int vdev_open(void) { return count(0); }
int vdev_open_on(void) { return count(1); }

static FILE *trace;
static void say(const char *f, ...) {
  va_list ap;
  if (trace) { va_start(ap, f); vfprintf(trace, f, ap); va_end(ap); fflush(trace); }
  va_start(ap, f);
  if (logn < sizeof logbuf - 2048) logn += vsnprintf(logbuf + logn, 2000, f, ap);
  va_end(ap);
}
static const char *hexs(const uint8_t *p, size_t n) {
  static char b[4][1200]; static int k;
  char *o = b[k++ & 3];
  if (n > 500) n = 500;
  for (size_t i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", p[i]);
  o[2 * n] = 0;
  return o;
}
// enter counts a call; a fault due now is its outcome
static int enter(void) {
  calls++;
  for (int i = 0; i < nfault; i++) if (nth[i] == calls) { fired++; return frc[i]; }
  return 0;
}
#define ENTER() pthread_mutex_lock(&mu); int rc = enter()
#define LEAVE() do { say("=%d\n", rc); pthread_mutex_unlock(&mu); return rc; } while (0)

static int usable(yh_session *s, const char *what, int authed) {
  if (!s || s->gen != gen || !s->live || (authed && !s->authed)) {
    if (!bad[0] && s) snprintf(bad, sizeof bad, "%s on a session that is %s", what, s->gen == gen && s->live ? "not authenticated" : "not open");
    return s ? YHR_DEVICE_INV_SESSION : YHR_INVALID_PARAMS;
  }
  return 0;
}

// The device of a program that is run on its own: its content is read from
// the file VDEV_STATE names, and what is called is written to VDEV_TRACE.
static size_t unhex(const char *s, uint8_t *o) {
  size_t n = 0;
  unsigned v;
  for (; *s && *s != '-' && sscanf(s, "%2x", &v) == 1; s += 2) o[n++] = v;
  return n;
}
static void load(const char *path) {
  static char a[4096], b[4096], c[4096], line[16384];
  uint8_t x[2048], y[2048], z[2048];
  int i, t, al, dom, len, pa;
  FILE *f = fopen(path, "r");
  if (!f) abort();
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "password %4000s %d", a, &i) == 2) vdev_password((char *)x, unhex(a, x), i);
    else if (sscanf(line, "object %d %d %d %d %4000s %4000s %d %4000s %d", &i, &t, &al, &dom, a, b, &len, c, &pa) == 9) {
      unhex(a, x); y[unhex(b, y)] = 0;
      vdev_add(i, t, al, dom, x, (char *)y, len, z, unhex(c, z), pa);
    } else if (sscanf(line, "sig %d %4000s %4000s", &i, a, b) == 3) { unhex(a, x); vdev_sig(i, x, y, unhex(b, y)); }
    else if (sscanf(line, "fault %d %d", &i, &t) == 2) vdev_fault(i, t);
    else abort();
  }
  fclose(f);
  if (getenv("VDEV_TRACE")) trace = fopen(getenv("VDEV_TRACE"), "w");
}
yh_rc yh_init(void) {
  if (getenv("VDEV_STATE")) load(getenv("VDEV_STATE"));
  return YHR_SUCCESS;
}
yh_rc yh_init_connector(const char *url, yh_connector **c) {
  ENTER();
  say("init_connector %s", url);
  if (!rc) { *c = calloc(1, sizeof **c); strncpy((*c)->url, url, 127); }
  LEAVE();
}
yh_rc yh_connect_best(yh_connector **cs, size_t n, int *idx) {
  ENTER();
  say("connect %s %d", n == 1 ? cs[0]->url : "?", (int)n);
  if (!rc) { cs[0]->connected = 1; if (idx) *idx = 0; }
  LEAVE();
}
yh_rc yh_disconnect(yh_connector *c) { ENTER(); say("disconnect %s", c->url); if (!rc) c->connected = 0; LEAVE(); }
yh_rc yh_set_connector_option(yh_connector *c, yh_connector_option o, const void *v) {
  ENTER(); say("option %d %s", o, (const char *)v); (void)c; LEAVE();
}
yh_rc yh_send_plain_msg(yh_connector *c, yh_cmd cmd, const uint8_t *data, size_t n, yh_cmd *rcmd, uint8_t *res, size_t *rn) {
  ENTER();
  say("send %d %s %d", cmd, hexs(data, n), (int)*rn);
  (void)c;
  if (!rc && *rn < n) rc = YHR_BUFFER_TOO_SMALL;
  if (!rc) { *rcmd = cmd | 0x80; for (size_t i = 0; i < n; i++) res[i] = data[n - 1 - i]; *rn = n; }
  LEAVE();
}
static int newsession(int id, int good, int recreate, uint8_t *ctx, size_t n, yh_session **s) {
  int open = 0;
  for (yh_session *p = pool; p; p = p->next) open += p->live;
  (void)recreate;
  if (n != YH_CONTEXT_LEN) return YHR_WRONG_LENGTH;
  if (id != 1) return YHR_DEVICE_OBJ_NOT_FOUND;
  if (open >= 16) return YHR_DEVICE_SESSIONS_FULL;
  if (!good && !late) return YHR_CRYPTOGRAM_MISMATCH;
  *s = calloc(1, sizeof **s);
  (*s)->next = pool; pool = *s;
  (*s)->gen = gen; (*s)->live = 1; (*s)->good = good;
  serial++;
  for (int i = 0; i < YH_CONTEXT_LEN; i++) ctx[i] = (*s)->ctx[i] = serial >> (8 * (i & 3)) ^ i;
  return 0;
}
yh_rc yh_create_session_derived(yh_connector *c, uint16_t id, const uint8_t *p, size_t n, bool re, uint8_t *ctx, size_t cn, yh_session **s) {
  ENTER();
  say("create %d %s %d", id, hexs(p, n), re);
  if (!rc && (!p || !n)) rc = YHR_INVALID_PARAMS;
  if (!rc && !c->connected) rc = YHR_CONNECTOR_ERROR;
  if (!rc) rc = newsession(id, n == passlen && !memcmp(p, pass, n), re, ctx, cn, s);
  LEAVE();
}
yh_rc yh_create_session(yh_connector *c, uint16_t id, const uint8_t *k, size_t kn, const uint8_t *m, size_t mn, bool re, uint8_t *ctx, size_t cn, yh_session **s) {
  ENTER();
  say("create2 %d %s %s %d", id, hexs(k, kn), hexs(m, mn), re);
  (void)c;
  if (!rc && (!kn || !mn)) rc = YHR_INVALID_PARAMS;
  if (!rc) rc = newsession(id, 1, re, ctx, cn, s);
  LEAVE();
}
yh_rc yh_authenticate_session(yh_session *s, uint8_t *ctx, size_t n) {
  ENTER();
  say("authenticate");
  if (!rc) rc = usable(s, "authentication", 0);
  if (!rc && (n != YH_CONTEXT_LEN || memcmp(ctx, s->ctx, n))) rc = YHR_CRYPTOGRAM_MISMATCH;
  if (!rc && !s->good) rc = YHR_DEVICE_AUTH_FAIL;
  if (!rc) s->authed = 1;
  LEAVE();
}
yh_rc yh_destroy_session(yh_session **s) {
  // no device is involved: not counted, cannot fail for an open session
  pthread_mutex_lock(&mu);
  int rc = 0;
  if (!s || !*s) rc = YHR_INVALID_PARAMS;
  else {
    if ((*s)->gen == gen) { say("destroy=0\n"); (*s)->live = 0; (*s)->authed = 0; }
    *s = NULL;
  }
  pthread_mutex_unlock(&mu);
  return rc;
}
yh_rc yh_util_get_device_info(yh_connector *c, uint8_t *a, uint8_t *b, uint8_t *p, uint32_t *ser, uint8_t *lt, uint8_t *lu, yh_algorithm *al, size_t *n) {
  ENTER();
  say("info %d", (int)*n);
  (void)c;
  if (!rc && (int)*n < nalgs) rc = YHR_BUFFER_TOO_SMALL;
  if (!rc) {
    *a = 2; *b = 7; *p = 19; *ser = 0xdeadbeef; *lt = 62; *lu = 5;
    for (int i = 0; i < nalgs; i++) al[i] = YH_ALGO_EC_K256 + i;
    *n = nalgs;
  }
  LEAVE();
}
yh_rc yh_util_list_objects(yh_session *s, uint16_t id, yh_object_type type, uint16_t dom, const yh_capabilities *caps, yh_algorithm alg, const char *label, yh_object_descriptor *out, size_t *n) {
  ENTER();
  say("list %d %d %d %s %d %s", id, type, dom, hexs(caps->capabilities, 8), alg, label ? label : "-");
  if (!rc) rc = usable(s, "list", 1);
  if (!rc) {
    size_t k = 0;
    uint8_t zero[8] = {0};
    for (int i = 0; i < nobj; i++) {
      yh_object_descriptor *d = &obj[i].d;
      if (id && d->id != id) continue;
      if (type && d->type != type) continue;
      if (dom && !(d->domains & dom)) continue;
      if (alg && d->algorithm != alg) continue;
      if (label && strcmp(label, d->label)) continue;
      if (memcmp(caps->capabilities, zero, 8)) {
        int any = 0;
        for (int j = 0; j < 8; j++) any |= d->capabilities.capabilities[j] & caps->capabilities[j];
        if (!any) continue;
      }
      if (k == *n) { rc = YHR_BUFFER_TOO_SMALL; break; }
      // the list gives id, type and sequence; the rest comes from the object's info
      out[k++] = *d;
    }
    if (!rc) *n = k;
  }
  LEAVE();
}
yh_rc yh_util_get_object_info(yh_session *s, uint16_t id, yh_object_type type, yh_object_descriptor *o) {
  ENTER();
  say("object %d %d", id, type);
  if (!rc) rc = usable(s, "object info", 1);
  if (!rc) {
    rc = YHR_DEVICE_OBJ_NOT_FOUND;
    for (int i = 0; i < nobj; i++) if (obj[i].d.id == id && obj[i].d.type == type) { *o = obj[i].d; rc = 0; break; }
  }
  LEAVE();
}
yh_rc yh_util_get_pubkey(yh_session *s, uint16_t id, uint8_t *data, size_t *n, yh_algorithm *alg) {
  ENTER();
  say("pubkey %d", id);
  if (!rc) rc = usable(s, "public key", 1);
  if (!rc) {
    rc = YHR_DEVICE_OBJ_NOT_FOUND;
    for (int i = 0; i < nobj; i++) if (obj[i].d.id == id && obj[i].d.type == YH_ASYMMETRIC) {
      rc = 0;
      if (*n < obj[i].publen) rc = YHR_BUFFER_TOO_SMALL;
      else { memcpy(data, obj[i].pub, obj[i].publen); *n = obj[i].publen; *alg = obj[i].pubalg; }
      break;
    }
  }
  LEAVE();
}
yh_rc yh_util_generate_key_ec(yh_session *s, uint16_t *id, const char *label, uint16_t dom, const yh_capabilities *caps, yh_algorithm alg) {
  ENTER();
  say("generate %d %s %d %s %d", *id, label ? label : "-", dom, caps ? hexs(caps->capabilities, 8) : "-", alg);
  if (!rc) rc = usable(s, "key generation", 1);
  if (!rc) *id = 0x4242;
  LEAVE();
}
yh_rc yh_util_sign_ecdsa(yh_session *s, uint16_t id, const uint8_t *in, size_t n, uint8_t *out, size_t *on) {
  ENTER();
  say("sign %d %s", id, hexs(in, n));
  if (!rc) rc = usable(s, "signing", 1);
  if (!rc) {
    int has = 0;
    for (int i = 0; i < nobj; i++) has |= obj[i].d.id == id && obj[i].d.type == YH_ASYMMETRIC;
    if (!has) rc = YHR_DEVICE_OBJ_NOT_FOUND;
  }
  if (!rc) {
    rc = YHR_DEVICE_INV_DATA;
    for (int i = 0; n == 32 && i < nsig; i++) if (sigs[i].id == id && !memcmp(sigs[i].digest, in, 32)) {
      rc = 0;
      if (*on < sigs[i].n) rc = YHR_BUFFER_TOO_SMALL;
      else { memcpy(out, sigs[i].der, sigs[i].n); *on = sigs[i].n; }
      break;
    }
  }
  LEAVE();
}
yh_rc yh_capabilities_to_num(const char *s, yh_capabilities *r) {
  memset(r, 0, sizeof *r);
  char b[512];
  strncpy(b, s, 511); b[511] = 0;
  for (char *p = b, *q; p && *p; p = q) {
    q = strchr(p, ',');
    if (q) *q++ = 0;
    unsigned i;
    for (i = 0; i < sizeof yh_capability / sizeof *yh_capability; i++)
      if (!strcmp(p, yh_capability[i].name)) { r->capabilities[7 - yh_capability[i].bit / 8] |= 1 << yh_capability[i].bit % 8; break; }
    if (i == sizeof yh_capability / sizeof *yh_capability) return YHR_INVALID_PARAMS;
  }
  return YHR_SUCCESS;
}
yh_rc yh_num_to_capabilities(const yh_capabilities *c, const char *r[], size_t *n) {
  size_t k = 0;
  for (unsigned i = 0; i < sizeof yh_capability / sizeof *yh_capability; i++)
    if (c->capabilities[7 - yh_capability[i].bit / 8] >> yh_capability[i].bit % 8 & 1) {
      if (k == *n) return YHR_BUFFER_TOO_SMALL;
      r[k++] = yh_capability[i].name;
    }
  *n = k;
  return YHR_SUCCESS;
}
const char *yh_strerror(yh_rc e) { static __thread char b[32]; snprintf(b, sizeof b, "device error %d", e); return b; }
yh_rc yh_set_verbosity(uint8_t v) { verb = v; return YHR_SUCCESS; }
yh_rc yh_get_verbosity(uint8_t *v) { *v = verb; return YHR_SUCCESS; }
void yh_set_debug_output(FILE *f) { (void)f; }
