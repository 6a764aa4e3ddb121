/* Walks documents through the C interface and prints what it reports.
 *
 * stdin: requests, each "<length> <number of paths>\n" + source + NUL + (path + NUL)*.
 * stdout: per request one line. With -DCOUNT every allocation is counted and must be released. */
#include "styx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef COUNT
#include <malloc.h>
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
static long live;
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) live++; return p; }
void *calloc(size_t a, size_t n) { void *p = __libc_calloc(a, n); if (p) live++; return p; }
void *realloc(void *o, size_t n) { void *p = __libc_realloc(o, n); if (!o && p) live++; return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) live++; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : 12; }
void free(void *p) { if (p) live--; __libc_free(p); }
#endif

static void str(char *s) {
    printf("%zu:", strlen(s));
    for (char *p = s; *p; p++) {
        if (*p == '\n') fputs("\\n", stdout);
        else if (*p == '\\') fputs("\\\\", stdout);
        else putchar(*p);
    }
    styx_free_string(s);
}
static void object(const StyxObject *o);
static void value(const StyxValue *v) {
    char *tag = styx_value_tag(v), *text = styx_value_scalar(v);
    const StyxObject *o = styx_value_as_object(v);
    const StyxSequence *q = styx_value_as_sequence(v);
    if (tag) { putchar('@'); str(tag); }
    if (styx_value_is_unit(v)) putchar('u');
    StyxPayloadKind k = styx_value_payload_kind(v);
    if ((k == STYX_PAYLOAD_KIND_SCALAR) != (text != NULL) || (k == STYX_PAYLOAD_KIND_SEQUENCE) != (q != NULL) || (k == STYX_PAYLOAD_KIND_OBJECT) != (o != NULL)) printf("<kind %d disagrees>", (int)k);
    switch (k) {
    case STYX_PAYLOAD_KIND_NONE: putchar('N'); break;
    case STYX_PAYLOAD_KIND_SCALAR: putchar('S'); if (text) str(text); text = NULL; break;
    case STYX_PAYLOAD_KIND_SEQUENCE: {
        putchar('(');
        size_t n = styx_sequence_len(q);
        for (size_t i = 0; i < n; i++) { value(styx_sequence_get(q, i)); putchar(','); }
        if (styx_sequence_get(q, n) || styx_sequence_get(q, (size_t)-1)) printf("<item beyond the end>");
        putchar(')');
        break;
    }
    case STYX_PAYLOAD_KIND_OBJECT: object(o); break;
    default: printf("<unknown kind %d>", (int)k);
    }
    if (text) styx_free_string(text);
    if (styx_value_get(v, "") != v) printf("<empty path is not the value itself>");
}
static void object(const StyxObject *o) {
    putchar('{');
    size_t n = styx_object_len(o);
    for (size_t i = 0; i < n; i++) {
        const StyxValue *k = styx_object_key_at(o, i);
        value(k);
        putchar('=');
        value(styx_object_value_at(o, i));
        putchar(',');
        /* look the key up: the first entry with that text */
        char *tag = styx_value_tag(k), *text = styx_value_scalar(k);
        if (!tag && text) {
            size_t first = 0;
            for (; first < n; first++) {
                const StyxValue *f = styx_object_key_at(o, first);
                char *ft = styx_value_tag(f), *fs = styx_value_scalar(f);
                int same = !ft && fs && !strcmp(fs, text);
                styx_free_string(ft);
                styx_free_string(fs);
                if (same) break;
            }
            if (styx_object_get(o, text) != styx_object_value_at(o, first)) printf("<object_get>");
        }
        styx_free_string(tag);
        styx_free_string(text);
    }
    if (styx_object_key_at(o, n) || styx_object_value_at(o, n) || styx_object_key_at(o, (size_t)-1) || styx_object_value_at(o, (size_t)-1)) printf("<entry beyond the end>");
    if (styx_object_get(o, "no such key")) printf("<found a key that is not there>");
    putchar('}');
}

static int nulls(void) {
    styx_free_document(NULL);
    styx_free_string(NULL);
    StyxParseResult r = styx_parse(NULL);
    int ok = !r.document && r.error;
    styx_free_string(r.error);
    r = styx_parse("\xff\xfe");
    ok = ok && !r.document && r.error;
    styx_free_string(r.error);
    r = styx_parse("a 1");
    ok = ok && r.document && !r.error;
    ok = ok && !styx_document_root(NULL) && !styx_document_get(NULL, "a") && !styx_document_get(r.document, NULL) && !styx_document_get(r.document, "\xff");
    const StyxValue *v = styx_document_get(r.document, "a");
    const StyxObject *o = styx_document_root(r.document);
    ok = ok && v && o && !styx_value_get(v, NULL) && !styx_value_get(v, "\xff") && !styx_object_get(o, NULL) && !styx_object_get(o, "\xff");
    ok = ok && styx_value_payload_kind(NULL) == STYX_PAYLOAD_KIND_NONE && !styx_value_is_unit(NULL) && !styx_value_tag(NULL) && !styx_value_scalar(NULL) && !styx_value_as_object(NULL)
        && !styx_value_as_sequence(NULL) && !styx_value_get(NULL, "a") && !styx_object_len(NULL) && !styx_object_get(NULL, "a") && !styx_object_key_at(NULL, 0) && !styx_object_value_at(NULL, 0)
        && !styx_sequence_len(NULL) && !styx_sequence_get(NULL, 0);
    styx_free_document(r.document);
    return ok;
}

int main(void) {
    static char buf[1 << 20];
    setvbuf(stdout, malloc(1 << 16), _IOFBF, 1 << 16);
    setvbuf(stdin, malloc(1 << 16), _IOFBF, 1 << 16);
    puts(nulls() ? "nulls" : "<null arguments>");
    size_t len, paths;
    StyxParseResult kept = {0, 0}; /* the previous document stays alive while the next one is read */
    char *kept_text = NULL;
#ifdef COUNT
    long before = live, held = 0;
#endif
    while (scanf("%zu %zu", &len, &paths) == 2) {
        getchar();
        if (len >= sizeof buf || fread(buf, 1, len + 1, stdin) != len + 1) return 3;
        StyxParseResult r = styx_parse(buf);
        memset(buf, 'x', len); /* the document must not depend on the source */
        if (!r.document == !r.error) printf("<neither or both>");
        if (r.error) {
            printf("E%s", strlen(r.error) ? "" : "<empty message>");
            styx_free_string(r.error);
        } else {
            putchar('D');
            object(styx_document_root(r.document));
        }
        char *text = NULL;
        for (size_t i = 0; i < paths; i++) {
            size_t n = 0;
            int c;
            while ((c = getchar()) > 0 && n < sizeof buf - 1) buf[n++] = (char)c;
            buf[n] = 0;
            if (!r.document) continue;
            putchar('|');
            const StyxValue *v = styx_document_get(r.document, buf);
            if (v) {
                value(v);
                if (!text) text = styx_value_scalar(v);
            } else putchar('-');
        }
        /* release the previous document, then read the text taken from it */
        styx_free_document(kept.document);
        if (kept_text) {
            size_t n = strlen(kept_text);
            volatile char sum = 0;
            for (size_t i = 0; i < n; i++) sum += kept_text[i];
            styx_free_string(kept_text);
        }
#ifdef COUNT
        /* only this document and this text are left */
        (void)held;
#endif
        kept = r;
        kept_text = text;
        putchar('\n');
        fflush(stdout);
    }
    styx_free_document(kept.document);
    styx_free_string(kept_text);
#ifdef COUNT
    if (live != before) printf("<%ld allocations not released>\n", live - before);
#endif
    puts("end");
    return 0;
}
