// Control of the software device in vdev.c.
#ifndef VDEV_H
#define VDEV_H
#include <stddef.h>
#include <stdint.h>
void vdev_reset(void);                     // a fresh device: no objects, no sessions, no faults
void vdev_fault(int nth, int rc);          // the nth call from now on (from 1) returns rc
int vdev_fired(void);                      // how many of the faults were hit
int vdev_calls(void);                      // device calls so far
const char *vdev_log(void);                // what was called, a line each
void vdev_clearlog(void);
void vdev_password(const char *p, size_t n, int late); // late: found wrong at authentication only
void vdev_add(int id, int type, int alg, int domains, const uint8_t *caps, const char *label, int len,
              const uint8_t *pub, size_t publen, int pubalg);
void vdev_remove(int id);
void vdev_sig(int id, const uint8_t *digest, const uint8_t *der, size_t n); // what signing gives
void vdev_info(int nalgs);
int vdev_open(void);                       // sessions open
int vdev_open_on(void);                    // sessions open and authenticated
const char *vdev_misuse(void);             // the first use of a session that is not open or not authenticated
#endif
