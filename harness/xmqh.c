// Conformance harness for libxmq. Public API (xmq.h) + libxml2 only.
// Reads one command per line (tab separated, string arguments hex encoded, "-" is NULL)
// from the file given as argv[1], starting at line argv[2], and prints one answer line per
// command: "<lineno>\t<field>\t<field>...". Every answer is flushed, so that a crash or a hang is attributed
// to the command that was running.
#include"xmq.h"
#include<libxml/tree.h>
#include<libxml/parser.h>
#include<libxml/xmlerror.h>
#include<stdio.h>
#include<stdlib.h>
#include<string.h>
#include<unistd.h>
#include<signal.h>
#include<stdbool.h>
#include<stdint.h>
#include<inttypes.h>
#include<fcntl.h>
#include<sys/stat.h>
#include<sys/socket.h>

bool xmqParseBufferWithType(XMQDoc *doc, const char *start, const char *stop, const char *implicit_root, XMQContentType ct, int flags);

static long lineno_;
static FILE *out_;
static int outfd_;
// The library prints some diagnostics on stdout, keep them out of the answers.
#define printf(...) fprintf(out_, __VA_ARGS__)

static void on_alarm(int s)
{
    (void)s;
    static const char m[] = "\tHANG\n";
    ssize_t r = write(outfd_, m, sizeof(m)-1); (void)r;
    _exit(99);
}

// What the library prints on stdout and stderr while an ixml grammar is used.
static int watch_ = -1, keep_;
static void watch_begin(void)
{
    fflush(stdout); fflush(stderr);
    if (watch_ < 0)
    {
        FILE *t = tmpfile();
        if (!t) exit(3);
        watch_ = fileno(t);
        keep_ = dup(2);
    }
    if (ftruncate(watch_, 0) || lseek(watch_, 0, SEEK_SET) != 0) exit(3);
    if (dup2(watch_, 1) < 0 || dup2(watch_, 2) < 0) exit(3);
}
static void watch_end(char *said) // "line:col" of an error, "w" after a warning, or ""
{
    fflush(stdout); fflush(stderr);
    if (dup2(keep_, 2) < 0) exit(3);
    char buf[4096];
    ssize_t n = pread(watch_, buf, sizeof(buf)-1, 0);
    buf[n < 0 ? 0 : n] = 0;
    int line, col;
    char *at = strstr(buf, "ixml:");
    said[0] = 0;
    if (at && sscanf(at, "ixml:%d:%d: syntax error", &line, &col) == 2) snprintf(said, 64, "%d:%d", line, col);
    else if (strstr(buf, "ambiguous")) strcpy(said, "w");
}

static int hexv(char c) { if (c >= '0' && c <= '9') return c-'0'; return c-'a'+10; }

static const char *junk_;  // XMQH_JUNK: hostile bytes that surround every buffer

// A buffer that holds exactly these bytes. Either exactly sized, so that the address sanitizer sees any
// read past the end (stop is exclusive), or embedded in junk, so that such a read changes the result.
static char *unhex(const char *h, size_t *len, bool zero)
{
    size_t n = strlen(h)/2;
    size_t j = (junk_ && !zero) ? strlen(junk_) : 0;
    char *b = (char*)malloc(16+n+(zero?1:0)+(n==0&&!zero?1:0)+j);
    memset(b, '=', 16);
    if (!j) { free(b); b = (char*)malloc(n+(zero?1:0)+(n==0&&!zero?1:0)); } else b += 16;
    for (size_t i = 0; i < n; ++i) b[i] = (char)(hexv(h[2*i])*16+hexv(h[2*i+1]));
    if (j) memcpy(b+n, junk_, j);
    if (zero) b[n] = 0;
    *len = n;
    return b;
}
static void freebuf(char *b) { if (junk_) free(b-16); else free(b); }
static char *unhexz(const char *h)
{
    size_t l;
    if (!h || !strcmp(h, "-")) return NULL;
    if (!strcmp(h, "=")) h = "";
    return unhex(h, &l, true);
}

static void phex(const char *s, size_t n)
{
    if (n == 0) { fputc('=', out_); return; }
    static const char *d = "0123456789abcdef";
    for (size_t i = 0; i < n; ++i) { fputc(d[((unsigned char)s[i])>>4], out_); fputc(d[((unsigned char)s[i])&15], out_); }
}
static void phexz(const char *s) { if (!s) fputc('-', out_); else phex(s, strlen(s)); }

// --- tree dump: blank separated events ------------------------------------------------
// E:name[:prefix]  N:prefix:href  A:name:prefix:kids  T:hex  S:hex(cdata) C:hex R:name P:target:hex D:name:ext:sys )
static void dump_node(xmlNode *n);
static void dump_kids(xmlNode *i) { for (; i; i = i->next) dump_node(i); }

static void dump_attr(xmlAttr *a)
{
    printf(" A:"); phexz((const char*)a->name); printf(":"); phexz(a->ns?(const char*)a->ns->prefix:NULL);
    if (!a->children) { printf(":-:"); phexz(a->ns?(const char*)a->ns->href:NULL); return; }
    printf(":");
    bool first = true;
    for (xmlNode *i = a->children; i; i = i->next)
    {
        if (!first) printf(",");
        first = false;
        if (i->type == XML_ENTITY_REF_NODE) { printf("R"); phexz((const char*)i->name); }
        else { printf("T"); phexz((const char*)(i->content?i->content:(xmlChar*)"")); }
    }
    printf(":"); phexz(a->ns?(const char*)a->ns->href:NULL);
}
static void dump_node(xmlNode *n)
{
    switch (n->type)
    {
    case XML_ELEMENT_NODE:
        printf(" E:"); phexz((const char*)n->name); printf(":"); phexz(n->ns?(const char*)n->ns->prefix:NULL);
        printf(":"); phexz(n->ns?(const char*)n->ns->href:NULL);
        for (xmlNs *d = n->nsDef; d; d = d->next) { printf(" N:"); phexz((const char*)d->prefix); printf(":"); phexz((const char*)d->href); }
        for (xmlAttr *a = n->properties; a; a = a->next) dump_attr(a);
        dump_kids(n->children);
        printf(" )");
        break;
    case XML_TEXT_NODE: printf(" T:"); phexz((const char*)(n->content?n->content:(xmlChar*)"")); break;
    case XML_CDATA_SECTION_NODE: printf(" S:"); phexz((const char*)n->content); break;
    case XML_COMMENT_NODE: printf(" C:"); phexz((const char*)(n->content?n->content:(xmlChar*)"")); break;
    case XML_ENTITY_REF_NODE: printf(" R:"); phexz((const char*)n->name); break;
    case XML_PI_NODE: printf(" P:"); phexz((const char*)n->name); printf(":"); phexz((const char*)n->content); break;
    case XML_DTD_NODE:
    {
        xmlBuffer *b = xmlBufferCreate();
        xmlNodeDump(b, n->doc, n, 0, 0);
        printf(" D:"); phexz((const char*)xmlBufferContent(b));
        xmlBufferFree(b);
        break;
    }
    default: printf(" X:%d", n->type);
    }
}
static void dump_doc(XMQDoc *doq)
{
    xmlDocPtr d = (xmlDocPtr)xmqGetImplementationDoc(doq);
    printf("[");
    if (d) dump_kids(d->children);
    printf(" ]");
}

// --- tree construction ----------------------------------------------------------------
static char *fld(char **p) { char *s = *p; if (!s) return NULL; char *c = strchr(s, ':'); if (c) { *c = 0; *p = c+1; } else *p = NULL; return s; }

static xmlDocPtr build_doc(char *spec)
{
    xmlDocPtr doc = xmlNewDoc((const xmlChar*)"1.0");
    xmlNode *cur = (xmlNode*)doc;
    for (char *tok = strtok(spec, " "); tok; tok = strtok(NULL, " "))
    {
        char kind = tok[0];
        if (kind == '[' || kind == ']') continue;
        if (kind == ')') { cur = cur->parent; continue; }
        char *p = tok+2;
        if (kind == 'E')
        {
            char *name = unhexz(fld(&p)), *prefix = unhexz(fld(&p)), *href = unhexz(fld(&p));
            xmlNode *n = xmlNewDocNode(doc, NULL, (xmlChar*)name, NULL);
            if (cur == (xmlNode*)doc) xmlAddChild(cur, n); else xmlAddChild(cur, n);
            n->_private = NULL;
            if (prefix || href)
            {
                xmlNs *ns = xmlSearchNs(doc, n, (xmlChar*)prefix);
                if (!ns || (href && strcmp((const char*)ns->href, href))) ns = xmlNewNs(n, (xmlChar*)href, (xmlChar*)prefix);
                xmlSetNs(n, ns);
            }
            free(name); free(prefix); free(href);
            cur = n;
        }
        else if (kind == 'N')
        {
            char *prefix = unhexz(fld(&p)), *href = unhexz(fld(&p));
            xmlNewNs(cur, (xmlChar*)href, (xmlChar*)prefix); // returns NULL if it was declared already
            free(prefix); free(href);
        }
        else if (kind == 'A')
        {
            char *name = unhexz(fld(&p)), *prefix = unhexz(fld(&p)), *kids = p;
            xmlNs *ns = prefix ? xmlSearchNs(doc, cur, (xmlChar*)prefix) : NULL;
            xmlAttr *a = xmlNewNsProp(cur, ns, (xmlChar*)name, NULL);
            if (kids && strcmp(kids, "-"))
            {
                xmlNode *last = NULL;
                char *k = kids;
                while (k && *k)
                {
                    char *c = strchr(k, ',');
                    if (c) *c = 0;
                    char *v = unhexz(k+1);
                    xmlNode *t = k[0] == 'R' ? xmlNewReference(doc, (xmlChar*)v) : xmlNewDocText(doc, (xmlChar*)v);
                    t->parent = (xmlNode*)a; t->prev = last; t->next = NULL;
                    if (last) last->next = t; else a->children = t;
                    a->last = t; last = t;
                    free(v);
                    k = c ? c+1 : NULL;
                }
            }
            free(name); free(prefix);
        }
        else
        {
            xmlNode *n = NULL;
            if (kind == 'P')
            {
                char *t = unhexz(fld(&p)), *v = unhexz(fld(&p));
                n = xmlNewDocPI(doc, (xmlChar*)t, (xmlChar*)v);
                free(t); free(v);
            }
            else if (kind == 'D')
            {
                char *v = unhexz(fld(&p));
                xmlCreateIntSubset(doc, (xmlChar*)v, NULL, NULL); // only "<!DOCTYPE name>" is built here
                free(v);
                continue;
            }
            else
            {
                char *v = unhexz(fld(&p));
                if (kind == 'T') n = xmlNewDocText(doc, (xmlChar*)v);
                if (kind == 'S') n = xmlNewCDataBlock(doc, (xmlChar*)v, (int)strlen(v));
                if (kind == 'C') n = xmlNewDocComment(doc, (xmlChar*)v);
                if (kind == 'R') n = xmlNewReference(doc, (xmlChar*)v);
                free(v);
            }
            // Link by hand: xmlAddChild would merge adjacent text nodes.
            n->parent = cur; n->prev = cur->last; n->next = NULL;
            if (cur->last) cur->last->next = n; else cur->children = n;
            cur->last = n;
        }
    }
    return doc;
}

static XMQContentType ctype(const char *s)
{
    if (!strcmp(s, "xmq")) return XMQ_CONTENT_XMQ;
    if (!strcmp(s, "htmq")) return XMQ_CONTENT_HTMQ;
    if (!strcmp(s, "xml")) return XMQ_CONTENT_XML;
    if (!strcmp(s, "html")) return XMQ_CONTENT_HTML;
    if (!strcmp(s, "json")) return XMQ_CONTENT_JSON;
    if (!strcmp(s, "ixml")) return XMQ_CONTENT_IXML;
    if (!strcmp(s, "text")) return XMQ_CONTENT_TEXT;
    if (!strcmp(s, "clines")) return XMQ_CONTENT_CLINES;
    return XMQ_CONTENT_DETECT;
}
static const char *cname(XMQContentType t)
{
    static const char *n[] = { "unknown", "detect", "xmq", "htmq", "xml", "html", "json", "ixml", "text", "clines" };
    return n[t];
}

// settings: comma separated: fmt=xmq compact enl e7 et indent=N render=html|term|tex|plain|raw color dark
static XMQOutputSettings *settings(char *s)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    
    for (char *t = strtok(s, ","); t; t = strtok(NULL, ","))
    {
        if (!strncmp(t, "fmt=", 4)) xmqSetOutputFormat(os, ctype(t+4));
        else if (!strcmp(t, "compact")) { xmqSetCompact(os, true); xmqSetAddIndent(os, 0); }
        else if (!strcmp(t, "enl")) xmqSetEscapeNewlines(os, true);
        else if (!strcmp(t, "e7")) xmqSetEscapeNon7bit(os, true);
        else if (!strcmp(t, "et")) xmqSetEscapeTabs(os, true);
        else if (!strncmp(t, "indent=", 7)) xmqSetAddIndent(os, atoi(t+7));
        else if (!strcmp(t, "omit")) xmqSetOmitDecl(os, true);
        else if (!strcmp(t, "color")) xmqSetUseColor(os, true);
        else if (!strcmp(t, "dark")) xmqSetBackgroundMode(os, true);
        else if (!strcmp(t, "raw")) xmqSetRenderRaw(os, true);
        else if (!strcmp(t, "render=html")) xmqSetRenderFormat(os, XMQ_RENDER_HTML);
        else if (!strcmp(t, "render=term")) xmqSetRenderFormat(os, XMQ_RENDER_TERMINAL);
        else if (!strcmp(t, "render=tex")) xmqSetRenderFormat(os, XMQ_RENDER_TEX);
        else if (!strcmp(t, "render=plain")) xmqSetRenderFormat(os, XMQ_RENDER_PLAIN);
        else if (!strcmp(t, "render=raw")) xmqSetRenderFormat(os, XMQ_RENDER_RAW);
    }
    
    xmqSetupDefaultColors(os);
    return os;
}

// Print with the settings, then read what was printed and print it again.
static void do_reprint(XMQDoc *doq, char *set)
{
    XMQDoc *cur = doq;
    for (int i = 0; i < 2; ++i)
    {
        char *copy = strdup(set);
        XMQOutputSettings *os = settings(copy);
        char *start = NULL, *stop = NULL;
        size_t skip = 0;
        xmqSetupPrintMemory(os, &start, &stop);
        xmqSetupPrintSkip(os, &skip);
        xmqPrint(cur, os);
        printf("\t");
        if (!start) printf("-"); else phex(start+skip, (size_t)(stop-start-skip));
        xmqFreeOutputSettings(os);
        free(copy);
        if (cur != doq) xmqFreeDoc(cur);
        cur = NULL;
        if (i == 0 && start)
        {
            cur = xmqNewDoc();
            if (!xmqParseBufferWithType(cur, start+skip, stop, NULL, XMQ_CONTENT_XMQ, 0)) { printf("\t-"); xmqFreeDoc(cur); cur = NULL; }
        }
        else if (i == 0) printf("\t-");
        free(start);
        if (!cur) break;
    }
}

// Settings that are used again: only what is wanted differently from last time is set.
static XMQOutputSettings *again_;
static bool again_compact_, again_enl_, again_e7_, again_et_, again_omit_;
static int again_indent_ = 4;
static XMQOutputSettings *settings_again(char *s)
{
    bool compact = false, enl = false, e7 = false, et = false, omit = false;
    int indent = 4;
    if (!again_) { again_ = xmqNewOutputSettings(); xmqSetupDefaultColors(again_); }
    for (char *t = strtok(s, ","); t; t = strtok(NULL, ","))
    {
        if (!strncmp(t, "fmt=", 4)) xmqSetOutputFormat(again_, ctype(t+4));
        else if (!strcmp(t, "compact")) { compact = true; indent = 0; }
        else if (!strcmp(t, "enl")) enl = true;
        else if (!strcmp(t, "e7")) e7 = true;
        else if (!strcmp(t, "et")) et = true;
        else if (!strcmp(t, "omit")) omit = true;
        else if (!strncmp(t, "indent=", 7)) indent = atoi(t+7);
    }
    if (compact != again_compact_) xmqSetCompact(again_, again_compact_ = compact);
    if (enl != again_enl_) xmqSetEscapeNewlines(again_, again_enl_ = enl);
    if (e7 != again_e7_) xmqSetEscapeNon7bit(again_, again_e7_ = e7);
    if (et != again_et_) xmqSetEscapeTabs(again_, again_et_ = et);
    if (omit != again_omit_) xmqSetOmitDecl(again_, again_omit_ = omit);
    if (indent != again_indent_) xmqSetAddIndent(again_, again_indent_ = indent);
    return again_;
}

typedef struct { char *bytes; size_t used, max; } Sink;
static bool sink_write(void *state, const char *start, const char *stop)
{
    Sink *k = (Sink*)state;
    if (!start) return true;
    if (!stop) stop = start+strlen(start);
    size_t n = (size_t)(stop-start);
    if (k->used+n > k->max) { k->max = (k->used+n)*2; k->bytes = (char*)realloc(k->bytes, k->max); }
    memcpy(k->bytes+k->used, start, n);
    k->used += n;
    return true;
}

// The way of printing comes first: memory, writer (a writer of our own) or again (memory, with the settings used before).
static void do_print_way(XMQDoc *doq, const char *way, char *set)
{
    bool again = !strcmp(way, "again"), writer = !strcmp(way, "writer");
    XMQOutputSettings *os = again ? settings_again(set) : settings(set);
    char *start = NULL, *stop = NULL;
    size_t skip = 0;
    Sink sink = { NULL, 0, 0 };
    if (writer)
    {
        XMQWriter w = { &sink, sink_write };
        xmqSetWriterContent(os, w);
        xmqSetWriterError(os, w);
    }
    else
    {
        xmqSetupPrintMemory(os, &start, &stop);
        xmqSetupPrintSkip(os, &skip);
    }
    xmqPrint(doq, os);
    if (writer) { if (sink.used) phex(sink.bytes, sink.used); else printf("="); }
    else if (!start) printf("=");
    else phex(start+skip, (size_t)(stop-start-skip));
    free(start); free(sink.bytes);
    if (!again) xmqFreeOutputSettings(os);
}

static void do_print(XMQDoc *doq, char *set)
{
    XMQOutputSettings *os = settings(set);
    char *start = NULL, *stop = NULL;
    size_t skip = 0;
    xmqSetupPrintMemory(os, &start, &stop);
    xmqSetupPrintSkip(os, &skip);
    xmqPrint(doq, os);
    if (!start) printf("-");
    else { phex(start+skip, (size_t)(stop-start-skip)); }
    free(start);
    xmqFreeOutputSettings(os);
}

#define SLOTS 16
static XMQDoc *slot_[SLOTS];

typedef struct { int stop_after; int seen; XMQDoc *doq; } FE;
static XMQProceed fe_cb(XMQDoc *doq, XMQNode *node, void *ud)
{
    FE *fe = (FE*)ud;
    fe->seen++;
    if (fe->doq != doq) printf("WRONGDOC,");
    phexz(xmqGetName(node)); printf("/"); phexz(xmqGetContent(node));
    printf("/%d,", xmqForeachRel(doq, "ancestor-or-self::node()/preceding-sibling::node()/descendant-or-self::node()|ancestor::node()", NULL, NULL, node)); // how many nodes start before it
    return fe->seen == fe->stop_after ? XMQ_STOP : XMQ_CONTINUE;
}

typedef struct { const char *xp; int mode; } RG;
static XMQProceed rel_cb(XMQDoc *doq, XMQNode *node, void *ud)
{
    RG *r = (RG*)ud;
    switch (r->mode) {
    case 0: printf("%" PRId32 ",", xmqGetIntRel(doq, r->xp, node)); break;
    case 1: printf("%" PRId64 ",", xmqGetLongRel(doq, r->xp, node)); break;
    case 2: printf("%.17g,", xmqGetDoubleRel(doq, r->xp, node)); break;
    case 3: phexz(xmqGetStringRel(doq, r->xp, node)); printf(","); break;
    case 4: { FE fe = { -1, 0, doq }; printf("{"); int n = xmqForeachRel(doq, r->xp, fe_cb, &fe, node); printf("}%d,", n); break; }
    }
    return XMQ_CONTINUE;
}

// Write the file SRC in our directory, or make it the standard input, or make the standard input give it bit by bit.
static void write_src(const char *buf, size_t len, const char *way)
{
    bool to_stdin = !strcmp(way, "stdin");
    if (!strcmp(way, "bits"))
    {
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv)) exit(3);
        size_t piece = len/100+1;
        if (piece < 61) piece = 61;
        for (size_t at = 0; at < len; at += piece)
        {
            size_t n = len-at < piece ? len-at : piece;
            if (send(sv[1], buf+at, n, MSG_DONTWAIT) != (ssize_t)n) exit(3);
        }
        close(sv[1]);
        if (sv[0] != 0 && (dup2(sv[0], 0) != 0 || close(sv[0]))) exit(3);
        return;
    }
    FILE *out = fopen("SRC", "wb");
    if (!out || fwrite(buf, 1, len, out) != len || fclose(out)) exit(3);
    if (!to_stdin) return;
    int fd = open("SRC", O_RDONLY);
    if (fd < 0 || (fd && (dup2(fd, 0) != 0 || close(fd)))) exit(3);
}

static void command(char **a, int n)
{
    (void)n;
    size_t len;
    const char *op = a[0];
    if (!strcmp(op, "tok"))
    {
        char *buf = unhex(!strcmp(a[1],"=")?"":a[1], &len, false);
        XMQOutputSettings *os = xmqNewOutputSettings();
        char *start = NULL, *stop = NULL;
        size_t skip = 0;
        xmqSetupPrintMemory(os, &start, &stop);
        xmqSetupPrintSkip(os, &skip);
        XMQParseCallbacks *cb = xmqNewParseCallbacks();
        if (n > 2 && !strcmp(a[2], "content")) xmqSetupParseCallbacksDebugContent(cb);
        else if (n > 2 && !strcmp(a[2], "html")) { xmqSetRenderFormat(os, XMQ_RENDER_HTML); xmqSetUseColor(os, true); xmqSetupDefaultColors(os); xmqSetupParseCallbacksColorizeTokens(cb, XMQ_RENDER_HTML); }
        else if (n > 2 && !strcmp(a[2], "term")) { xmqSetRenderFormat(os, XMQ_RENDER_TERMINAL); xmqSetUseColor(os, true); xmqSetupDefaultColors(os); xmqSetupParseCallbacksColorizeTokens(cb, XMQ_RENDER_TERMINAL); }
        else if (n > 2 && !strcmp(a[2], "tex")) { xmqSetRenderFormat(os, XMQ_RENDER_TEX); xmqSetUseColor(os, true); xmqSetupDefaultColors(os); xmqSetupParseCallbacksColorizeTokens(cb, XMQ_RENDER_TEX); }
        else xmqSetupParseCallbacksDebugTokens(cb);
        XMQParseState *st = xmqNewParseState(cb, os);
        xmqSetStateSourceName(st, "SRC");
        bool ok;
        if (n > 2 && (!strcmp(a[2], "file") || !strcmp(a[2], "stdin") || !strcmp(a[2], "bits")))
        {
            write_src(buf, len, a[2]);
            ok = xmqTokenizeFile(st, strcmp(a[2], "file") ? NULL : "SRC");
        }
        else ok = xmqTokenizeBuffer(st, buf, buf+len);
        int e = xmqStateErrno(st);
        printf("\t%d\t%d\t%s\t", ok, e, e?xmqParseErrorToString((XMQParseError)e):"-");
        phexz(e?xmqStateErrorMsg(st):NULL);
        printf("\t");
        if (start) phex(start+skip, (size_t)((stop?stop:start)-start-skip)); else printf("-");
        xmqFreeParseState(st);
        xmqFreeParseCallbacks(cb);
        xmqFreeOutputSettings(os);
        free(start);
        freebuf(buf);
    }
    else if (!strcmp(op, "detect"))
    {
        char *buf = unhex(!strcmp(a[1],"=")?"":a[1], &len, false);
        printf("\t%s", cname(xmqDetectContentType(buf, buf+len)));
        freebuf(buf);
    }
    else if (!strcmp(op, "new")) // new slot
    {
        int s = atoi(a[1]);
        if (slot_[s]) xmqFreeDoc(slot_[s]);
        slot_[s] = xmqNewDoc();
        xmqSetDocSourceName(slot_[s], "SRC");
        printf("\t1");
    }
    else if (!strcmp(op, "free"))
    {
        int s = atoi(a[1]);
        if (slot_[s]) xmqFreeDoc(slot_[s]);
        slot_[s] = NULL;
        printf("\t1");
    }
    else if (!strcmp(op, "parse")) // parse slot type flags root hex  (a fresh document)
    {
        int s = atoi(a[1]);
        if (slot_[s]) xmqFreeDoc(slot_[s]);
        slot_[s] = xmqNewDoc();
        xmqSetDocSourceName(slot_[s], "SRC");
        char *buf = unhex(!strcmp(a[5],"=")?"":a[5], &len, false);
        char *root = unhexz(a[4]);
        bool ok = xmqParseBufferWithType(slot_[s], buf, buf+len, root, ctype(a[2]), atoi(a[3]));
        int e = xmqDocErrno(slot_[s]);
        printf("\t%d\t%d\t%s\t", ok, e, e?xmqParseErrorToString((XMQParseError)e):"-");
        phexz(ok?NULL:xmqDocError(slot_[s]));
        printf("\t");
        if (ok) dump_doc(slot_[s]); else printf("-");
        if (ok) printf("\t%s\t%zu", cname(xmqGetOriginalContentType(slot_[s])), xmqGetOriginalSize(slot_[s]));
        free(root);
        freebuf(buf);
    }
    else if (!strcmp(op, "load")) // load slot way type flags root hex: as parse, from buf, file, stdin or bits (of stdin)
    {
        int s = atoi(a[1]);
        if (slot_[s]) xmqFreeDoc(slot_[s]);
        slot_[s] = xmqNewDoc();
        char *buf = unhex(!strcmp(a[6],"=")?"":a[6], &len, false);
        char *root = unhexz(a[5]);
        bool ok;
        if (!strcmp(a[2], "buf")) { xmqSetDocSourceName(slot_[s], "SRC"); ok = xmqParseBufferWithType(slot_[s], buf, buf+len, root, ctype(a[3]), atoi(a[4])); }
        else
        {
            write_src(buf, len, a[2]);
            ok = xmqParseFileWithType(slot_[s], strcmp(a[2], "file") ? NULL : "SRC", root, ctype(a[3]), atoi(a[4]));
        }
        printf("\t%d\t%d\t", ok, xmqDocErrno(slot_[s]));
        phexz(ok?NULL:xmqDocError(slot_[s]));
        printf("\t");
        if (ok) dump_doc(slot_[s]); else printf("-");
        if (ok) printf("\t%s\t%zu", cname(xmqGetOriginalContentType(slot_[s])), xmqGetOriginalSize(slot_[s]));
        if (!ok) { xmqFreeDoc(slot_[s]); slot_[s] = NULL; }
        free(root);
        freebuf(buf);
    }
    else if (!strcmp(op, "printw")) { printf("\t"); do_print_way(slot_[atoi(a[1])], a[2], a[3]); } // printw slot way settings
    else if (!strcmp(op, "ixml")) // ixml slot flags grammar hex
    {
        int s = atoi(a[1]);
        if (slot_[s]) xmqFreeDoc(slot_[s]);
        slot_[s] = xmqNewDoc();
        char *g = unhexz(a[3]);
        char *buf = unhexz(!strcmp(a[4],"=")?"":a[4]);
        XMQDoc *gd = xmqNewDoc();
        xmqSetDocSourceName(gd, "GRM");
        bool gok = xmqParseBufferWithType(gd, g, g+strlen(g), NULL, XMQ_CONTENT_IXML, 0);
        printf("\t%d", gok);
        if (gok)
        {
            bool ok = xmqParseBufferWithIXML(slot_[s], buf, buf+strlen(buf), gd, atoi(a[2]));
            printf("\t%d\t", ok);
            dump_doc(slot_[s]);
        }
        else { printf("\t0\t"); phexz(xmqDocError(gd)); }
        xmqFreeDoc(gd);
        free(g); free(buf);
    }
    else if (!strcmp(op, "ixmls")) // ixmls flags grammar hex...: one grammar for several texts, and the place or the warning that was printed
    {
        char *g = unhexz(a[2]);
        XMQDoc *gd = xmqNewDoc();
        xmqSetDocSourceName(gd, "GRM");
        bool gok = xmqParseBufferWithType(gd, g, g+strlen(g), NULL, XMQ_CONTENT_IXML, 0);
        printf("\t%d", gok);
        if (!gok) { printf("\t"); phexz(xmqDocError(gd)); }
        for (int i = 3; gok && i < n; ++i)
        {
            char *t = unhexz(!strcmp(a[i],"=")?"":a[i]);
            size_t len = strlen(t);
            char *buf = malloc(len ? len : 1); // not terminated
            memcpy(buf, t, len);
            XMQDoc *d = xmqNewDoc();
            watch_begin();
            bool ok = xmqParseBufferWithIXML(d, buf, buf+len, gd, atoi(a[1]));
            char said[64];
            watch_end(said);
            printf("\t%d\t", ok);
            if (ok) dump_doc(d); else phexz(xmqDocError(d));
            printf("\t%s", said);
            xmqFreeDoc(d);
            free(t); free(buf);
        }
        xmqFreeDoc(gd);
        free(g);
    }
    else if (!strcmp(op, "build")) // build slot events
    {
        int s = atoi(a[1]);
        if (slot_[s]) xmqFreeDoc(slot_[s]);
        slot_[s] = xmqNewDoc();
        xmlDocPtr old = (xmlDocPtr)xmqGetImplementationDoc(slot_[s]);
        if (old) xmlFreeDoc(old);
        xmqSetImplementationDoc(slot_[s], build_doc(a[2]));
        printf("\t1");
    }
    else if (!strcmp(op, "dump")) { printf("\t"); dump_doc(slot_[atoi(a[1])]); }
    else if (!strcmp(op, "print")) { printf("\t"); do_print(slot_[atoi(a[1])], a[2]); }
    else if (!strcmp(op, "xmlback")) // print as xml, and read that back with all whitespace
    {
        XMQOutputSettings *os = xmqNewOutputSettings();
        char *start = NULL, *stop = NULL;
        size_t skip = 0;
        xmqSetOutputFormat(os, XMQ_CONTENT_XML);
        xmqSetupPrintMemory(os, &start, &stop);
        xmqSetupPrintSkip(os, &skip);
        xmqPrint(slot_[atoi(a[1])], os);
        XMQDoc *d = xmqNewDoc();
        bool ok = start && xmqParseBufferWithType(d, start+skip, stop, NULL, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE);
        printf("\t%d\t", ok);
        if (ok) dump_doc(d); else printf("-");
        xmqFreeDoc(d);
        free(start);
        xmqFreeOutputSettings(os);
    }
    else if (!strcmp(op, "via")) // via slot settings type flags slot2: print, and read what was printed into slot2
    {
        XMQOutputSettings *os = settings(a[2]);
        char *start = NULL, *stop = NULL;
        size_t skip = 0;
        xmqSetupPrintMemory(os, &start, &stop);
        xmqSetupPrintSkip(os, &skip);
        xmqPrint(slot_[atoi(a[1])], os);
        int s = atoi(a[5]);
        if (slot_[s]) xmqFreeDoc(slot_[s]);
        slot_[s] = xmqNewDoc();
        bool ok = start && xmqParseBufferWithType(slot_[s], start+skip, stop, NULL, ctype(a[3]), atoi(a[4]));
        printf("\t%d\t", ok);
        if (start) phex(start+skip, stop-start-skip); else printf("-");
        printf("\t");
        if (ok) dump_doc(slot_[s]); else printf("-");
        free(start);
        xmqFreeOutputSettings(os);
    }
    else if (!strcmp(op, "reprint")) do_reprint(slot_[atoi(a[1])], n > 2 ? a[2] : (char*)"");
    else if (!strcmp(op, "trim")) { xmqTrimWhitespace(slot_[atoi(a[1])], atoi(a[2])); printf("\t"); dump_doc(slot_[atoi(a[1])]); }
    else if (!strcmp(op, "root"))
    {
        XMQDoc *d = slot_[atoi(a[1])];
        XMQNode *r = xmqGetRootNode(d);
        printf("\t"); if (r) { phexz(xmqGetName(r)); printf("/"); phexz(xmqGetContent(r)); } else printf("NONE");
        printf("\t%s\t%zu", cname(xmqGetOriginalContentType(d)), xmqGetOriginalSize(d));
    }
    else if (!strcmp(op, "get")) // get slot xpath
    {
        XMQDoc *d = slot_[atoi(a[1])];
        char *xp = unhexz(a[2]);
        printf("\t%" PRId32 "\t%" PRId64 "\t%.17g\t", xmqGetInt(d, xp), xmqGetLong(d, xp), xmqGetDouble(d, xp));
        phexz(xmqGetString(d, xp));
        free(xp);
    }
    else if (!strcmp(op, "each")) // each slot xpath stop_after
    {
        XMQDoc *d = slot_[atoi(a[1])];
        char *xp = unhexz(a[2]);
        FE fe = { atoi(a[3]), 0, d };
        printf("\t");
        int r = xmqForeach(d, xp, fe_cb, &fe);
        printf("\t%d\t%d", r, fe.seen);
        free(xp);
    }
    else if (!strcmp(op, "rel")) // rel slot xpath relxpath mode
    {
        XMQDoc *d = slot_[atoi(a[1])];
        char *xp = unhexz(a[2]), *rx = unhexz(a[3]);
        RG rg = { rx, atoi(a[4]) };
        printf("\t");
        int r = xmqForeach(d, xp, rel_cb, &rg);
        printf("\t%d", r);
        free(xp); free(rx);
    }
    else if (!strcmp(op, "quote"))
    {
        char *c = unhexz(a[1]);
        char *q = xmqCompactQuote(c);
        printf("\t"); phexz(q);
        free(q); free(c);
    }
    else if (!strcmp(op, "linedoc"))
    {
        XMQLineConfig *lc = xmqNewLineConfig();
        char *r = xmqLineDoc(lc, slot_[atoi(a[1])]);
        printf("\t"); phexz(r);
        free(r);
        xmqFreeLineConfig(lc);
    }
    else if (!strcmp(op, "line")) // line human way name k v k v ...
    {
        XMQLineConfig *lc = xmqNewLineConfig();
        xmqSetLineHumanReadable(lc, atoi(a[1]));
        int way = atoi(a[2]);
        char *v[12] = {0};
        for (int i = 0; i < 12; ++i) v[i] = (3+i < n) ? unhexz(a[3+i]) : NULL;
        char *r = NULL;
        int k = (n-4)/2; // number of keys with values
#define ONE(x) "%s", v[x]
#define TWO(x) "%.*s%s", (int)(strlen(v[x])/2), v[x], v[x]+strlen(v[x])/2
#define LINE(F, END) \
        if (k == 0) r = xmqLinePrintf(lc, v[0], END); \
        if (k == 1) r = xmqLinePrintf(lc, v[0], v[1], F(2), END); \
        if (k == 2) r = xmqLinePrintf(lc, v[0], v[1], F(2), v[3], F(4), END); \
        if (k == 3) r = xmqLinePrintf(lc, v[0], v[1], F(2), v[3], F(4), v[5], F(6), END); \
        if (k == 4) r = xmqLinePrintf(lc, v[0], v[1], F(2), v[3], F(4), v[5], F(6), v[7], F(8), END);
        if (way == 0) { LINE(ONE, "}") }
        if (way == 1) { LINE(TWO, NULL) }
        if (way == 2) r = xmqLinePrintf(lc, v[0], ONE(2)); // a single value
        if (way == 3) r = xmqLinePrintf(lc, v[0], TWO(2));
        if (way == 4) r = xmqLinePrintf(lc, v[0]);
        printf("\t"); phexz(r);
        free(r);
        for (int i = 0; i < 12; ++i) free(v[i]);
        xmqFreeLineConfig(lc);
    }
    else printf("\tUNKNOWN");
}

static void quiet(void *ctx, const char *msg, ...) { (void)ctx; (void)msg; }

int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    FILE *f = fopen(argv[1], "rb");
    if (!f) return 2;
    junk_ = getenv("XMQH_JUNK");
    char dir[4096];
    if (getenv("XMQH_TMP")) // a directory of our own, for the files of load
    {
        snprintf(dir, sizeof(dir), "%s/srcXXXXXX", getenv("XMQH_TMP"));
        if (!mkdtemp(dir) || chdir(dir)) return 2;
    }
    outfd_ = dup(1);
    out_ = fdopen(outfd_, "w");
    if (!out_ || !freopen("/dev/null", "w", stdout)) return 2;
    long from = atol(argv[2]), to = argc > 3 ? atol(argv[3]) : -1;
    int secs = getenv("XMQH_SECS") ? atoi(getenv("XMQH_SECS")) : 10;
    signal(SIGALRM, on_alarm);
    xmlSetGenericErrorFunc(NULL, quiet);
    char *line = NULL;
    size_t cap = 0;
    ssize_t got;
    lineno_ = 0;
    while ((got = getline(&line, &cap, f)) != -1)
    {
        long me = lineno_++;
        if (me < from) continue;
        if (to >= 0 && me >= to) break;
        if (got > 0 && line[got-1] == '\n') line[got-1] = 0;
        char *a[512];
        int n = 0;
        for (char *p = line; p && n < 512; ) { a[n++] = p; p = strchr(p, '\t'); if (p) *p++ = 0; }
        printf("%ld", me);
        fflush(out_);
        alarm((unsigned)secs);
        command(a, n);
        alarm(0);
        printf("\n");
        fflush(out_);
    }
    for (int i = 0; i < SLOTS; ++i) if (slot_[i]) xmqFreeDoc(slot_[i]);
    if (again_) xmqFreeOutputSettings(again_);
    return 0;
}
