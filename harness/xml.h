/* small strict XML 1.0 reader (no DTD, no namespaces, no comments): enough to decide well-formedness of the library's documents */
#ifndef XML_H
#define XML_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
typedef struct { int parent, nkids; char *name, *text; int nattr; char *an[8], *av[8]; } xnode;
typedef struct { xnode *n; int cnt, cap; char *arena; size_t used, size; const char *err; size_t errpos; } xdoc;
static char *x_put(xdoc *d, const char *s, size_t l) { char *r = d->arena + d->used; memcpy(r, s, l); r[l] = 0; d->used += l + 1; return r; }
static int x_namech(int c, int first) { return isalpha(c) || c == '_' || c == ':' || (!first && (isdigit(c) || c == '-' || c == '.')); }
/* decode character data into o; stops at stop; returns bytes consumed or -1 */
static long x_chars(const char *s, int stop, char *o, size_t *ol, const char **err)
{
    const char *p = s; static const struct { const char *e; char c; } en[] = { { "&amp;", '&' }, { "&lt;", '<' }, { "&gt;", '>' }, { "&quot;", '"' }, { "&apos;", '\'' } }; size_t i;
    while (*p && *p != stop) {
        unsigned char c = *p;
        if (c < 32 && c != '\t' && c != '\n' && c != '\r') { *err = "control character"; return -1; }
        if (c == '<') { *err = "'<' in text"; return -1; }
        if (c == ']' && !strncmp(p, "]]>", 3)) { *err = "']]>' in text"; return -1; }
        if (c == '&') { for (i = 0; i < 5; i++) if (!strncmp(p, en[i].e, strlen(en[i].e))) break; if (i == 5) { unsigned v = 0; int k = 0; if (sscanf(p, "&#x%x;%n", &v, &k) == 1 && k) ; else if (sscanf(p, "&#%u;%n", &v, &k) == 1 && k) ; else { *err = "undefined entity"; return -1; } if (v < 32 && v != 9 && v != 10 && v != 13) { *err = "reference to a control character"; return -1; } o[(*ol)++] = (char)v; p += k; continue; } o[(*ol)++] = en[i].c; p += strlen(en[i].e); continue; }
        o[(*ol)++] = c; p++;
    }
    return p - s;
}
static void xml_free(xdoc *d) { free(d->n); free(d->arena); memset(d, 0, sizeof *d); }
/* NULL if well formed, else what is wrong (position in d->errpos) */
static const char *xml_parse(xdoc *d, const char *s)
{
    const char *p = s, *e = NULL; int cur = -1, root = 0; long k; size_t ol; char *buf; size_t l = strlen(s);
    memset(d, 0, sizeof *d); d->size = 2 * l + 1024; d->arena = malloc(4 * l + 4096); buf = malloc(l + 16); d->cap = 64; d->n = malloc(d->cap * sizeof *d->n);
#define XERR(m) do { d->err = (m); d->errpos = p - s; free(buf); return d->err; } while (0)
    if (strncmp(p, "<?xml version=\"1.0\"", 19)) XERR("no XML declaration"); p += 19; { const char *q = strstr(p, "?>"); if (!q) XERR("declaration not closed"); if (strncmp(p, " encoding=\"ISO-8859-1\"", 22) && strncmp(p, " encoding=\"UTF-8\"", 17)) XERR("unexpected declaration"); p = q + 2; }
    for (;;) {
        if (cur < 0) { while (*p && isspace((unsigned char)*p)) p++; if (!*p) break; if (*p != '<') XERR("text outside the root element"); if (root && p[1] != '/') XERR("second root element"); }
        else if (*p != '<') { ol = 0; k = x_chars(p, '<', buf, &ol, &e); if (k < 0) XERR(e); if (!p[k]) XERR("document ends inside an element"); if (!d->n[cur].text) d->n[cur].text = x_put(d, buf, ol); else { char *t = d->arena + d->used; size_t a = strlen(d->n[cur].text); memmove(t, d->n[cur].text, a); memcpy(t + a, buf, ol); t[a + ol] = 0; d->n[cur].text = t; if (d->n[cur].nkids) { /* whitespace between children only */ size_t i; for (i = 0; i < ol; i++) if (!isspace((unsigned char)buf[i])) XERR("text between elements"); d->n[cur].text[a] = 0; } else d->used += a + ol + 1; } p += k; continue; }
        if (p[1] == '/') { size_t n; if (cur < 0) XERR("end tag without element"); n = strlen(d->n[cur].name); if (strncmp(p + 2, d->n[cur].name, n)) XERR("end tag does not match"); p += 2 + n; while (isspace((unsigned char)*p)) p++; if (*p != '>') XERR("end tag not closed"); p++; cur = d->n[cur].parent; continue; }
        { const char *q = p + 1; xnode *x; if (!x_namech((unsigned char)*q, 1)) XERR("bad element name"); while (x_namech((unsigned char)*q, 0)) q++;
          if (d->cnt == d->cap) { d->cap *= 2; d->n = realloc(d->n, d->cap * sizeof *d->n); }
          x = &d->n[d->cnt]; memset(x, 0, sizeof *x); x->parent = cur; x->name = x_put(d, p + 1, q - p - 1); if (cur >= 0) d->n[cur].nkids++; else root = 1; p = q;
          for (;;) { int sp = isspace((unsigned char)*p); while (isspace((unsigned char)*p)) p++; if (*p == '>' || (*p == '/' && p[1] == '>')) break; if (!sp) XERR("bad start tag"); q = p; if (!x_namech((unsigned char)*q, 1)) XERR("bad attribute name"); while (x_namech((unsigned char)*q, 0)) q++; if (x->nattr == 8 || q[0] != '=' || (q[1] != '"' && q[1] != '\'')) XERR("bad attribute"); x->an[x->nattr] = x_put(d, p, q - p); { int i; for (i = 0; i < x->nattr; i++) if (!strcmp(x->an[i], x->an[x->nattr])) XERR("duplicate attribute"); } ol = 0; p = q + 2; k = x_chars(p, q[1], buf, &ol, &e); if (k < 0) XERR(e); if (!p[k]) XERR("attribute not closed"); x->av[x->nattr++] = x_put(d, buf, ol); p += k + 1; }
          if (*p == '/') p += 2; else { p++; cur = d->cnt; } d->cnt++; }
    }
    if (cur >= 0) XERR("document ends inside an element"); if (!root) XERR("no root element");
    free(buf); return NULL;
#undef XERR
}
/* next child of parent after node i (i = -1: first) */
static int xml_next(const xdoc *d, int parent, int i) { if (i < 0) i = parent; for (i++; i < d->cnt; i++) if (d->n[i].parent == parent) return i; return -1; }
static const char *xml_txt(const xdoc *d, int i) { return i < 0 ? NULL : d->n[i].text ? d->n[i].text : ""; }
static const char *xml_attr(const xdoc *d, int i, const char *a) { int k; for (k = 0; k < d->n[i].nattr; k++) if (!strcmp(d->n[i].an[k], a)) return d->n[i].av[k]; return NULL; }
/* the children of node i are exactly the given (name, text) pairs, NULL terminated; text NULL = any. Returns NULL or the name that is wrong */
static const char *xml_kids(const xdoc *d, int i, const char *const (*w)[2]) { static char msg[600]; int k = -1, j; for (j = 0; w[j][0]; j++) { k = xml_next(d, i, k); if (k < 0) { snprintf(msg, sizeof msg, "<%s> is missing", w[j][0]); return msg; } if (strcmp(d->n[k].name, w[j][0])) { snprintf(msg, sizeof msg, "<%s> where <%s> is expected", d->n[k].name, w[j][0]); return msg; } if (d->n[k].nkids) { snprintf(msg, sizeof msg, "<%s> has element content", d->n[k].name); return msg; } if (w[j][1] && strcmp(xml_txt(d, k), w[j][1])) { snprintf(msg, sizeof msg, "<%s> is \"%.200s\", expected \"%.200s\"", w[j][0], xml_txt(d, k), w[j][1]); return msg; } } if (xml_next(d, i, k) >= 0) { snprintf(msg, sizeof msg, "unexpected <%s>", d->n[xml_next(d, i, k)].name); return msg; } return NULL; }
#endif
