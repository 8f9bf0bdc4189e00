// Models of the C++ runtime functions that have no body in the linked IR: red-black tree and list
// helpers, strto*, and in-memory file streams.  Only used by the symbolic engine; the native replay
// uses the real libraries.
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <istream>
#include <list>
#include <map>
#include <ostream>
#include "sx.h"
#include "sxfile.h"

// ---- std::list ------------------------------------------------------------------------------
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _List_node_base *const n = this->_M_next;
  _List_node_base *const q = this->_M_prev;
  q->_M_next = n;
  n->_M_prev = q;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
} }
// ---- std::map / std::set ----------------------------------------------------------------------
namespace std {
typedef _Rb_tree_node_base *NP;
static NP inc(NP x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    NP y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static NP dec(NP x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {
    NP y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    NP y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<NP>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<NP>(x)); }
static void rotl(NP const x, NP &root) {
  NP const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotr(NP const x, NP &root) {
  NP const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  NP &root = h._M_parent;
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NP const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      NP const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
      }
    } else {
      NP const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  NP &root = h._M_parent;
  NP &leftmost = h._M_left;
  NP &rightmost = h._M_right;
  NP y = z, x = 0, xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else
      xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0) leftmost = z->_M_parent;
      else { NP q = x; while (q->_M_left) q = q->_M_left; leftmost = q; }
    }
    if (rightmost == z) {
      if (z->_M_left == 0) rightmost = z->_M_parent;
      else { NP q = x; while (q->_M_right) q = q->_M_right; rightmost = q; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        NP w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) {
            w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right;
          }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotl(xp, root);
          break;
        }
      } else {
        NP w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) {
            w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left;
          }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotr(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
}  // namespace std
// ---- C library -----------------------------------------------------------------------------------
static int sxErrno;
extern "C" size_t sxObjSize(void *);
extern "C" {
int *__errno_location() { return &sxErrno; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static unsigned long sxStrto(const char *s, char **end, int base, bool sgn) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0;
  bool any = false, ovf = false;
  for (;; p++) {
    int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
    if (d >= base) break;
    any = true;
    if (v > (~0ul - d) / base) ovf = true;
    v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (sgn) {
    if (ovf || (!neg && v > 0x7ffffffffffffffful) || (neg && v > 0x8000000000000000ul)) {
      sxErrno = ERANGE;
      return neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
    }
  } else if (ovf) {
    sxErrno = ERANGE;
    return ~0ul;
  }
  return neg ? -v : v;
}
long __isoc23_strtol(const char *s, char **e, int b) { return (long)sxStrto(s, e, b, true); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return sxStrto(s, e, b, false); }
int strcmp(const char *a, const char *b) noexcept {
  while (*a && *a == *b) a++, b++;
  return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) noexcept {
  while (n && *a && *a == *b) a++, b++, n--;
  return n ? (unsigned char)*a - (unsigned char)*b : 0;
}
time_t time(time_t *t) noexcept { if (t) *t = 1700000000; return 1700000000; }
char *ctime(const time_t *) noexcept { static char b[] = "Tue Nov 14 22:13:20 2023\n"; return b; }
void *realloc(void *p, size_t n) noexcept {
  void *q = malloc(n);
  if (p && q) {
    
    size_t m = sxObjSize(p);
    memcpy(q, p, m < n ? m : n);
    free(p);
  }
  return q;
}
void *calloc(size_t a, size_t b) noexcept { void *q = malloc(a * b); memset(q, 0, a * b); return q; }
}
// ---- streams -------------------------------------------------------------------------------------
struct VFile { char name[64]; unsigned char *data; size_t size, cap; bool used; };
static VFile vf[8];
static VFile *findFile(const char *n, bool create) {
  for (auto &f : vf) if (f.used && !strcmp(f.name, n)) return &f;
  if (!create) return nullptr;
  for (auto &f : vf)
    if (!f.used) {
      f.used = true;
      size_t i = 0;
      for (; n[i] && i < 63; i++) f.name[i] = n[i];
      f.name[i] = 0;
      f.data = nullptr; f.size = f.cap = 0;
      return &f;
    }
  return nullptr;
}
static void vput(VFile *f, const char *s, size_t n) {
  if (f->size + n > f->cap) {
    size_t c = f->cap ? f->cap * 2 : 4096;
    while (c < f->size + n) c *= 2;
    unsigned char *d = (unsigned char *)malloc(c);
    if (f->size) memcpy(d, f->data, f->size);
    f->data = d;
    f->cap = c;
  }
  if (n) memcpy(f->data + f->size, s, n);
  f->size += n;
}
extern "C" void sx_file_set(const char *name, const void *d, size_t n) {
  VFile *f = findFile(name, true);
  f->size = 0;
  vput(f, (const char *)d, n);
}
extern "C" size_t sx_file_size(const char *name) {
  VFile *f = findFile(name, false);
  return f ? f->size : (size_t)-1;
}
extern "C" void sx_file_read(const char *name, void *d, size_t n) {
  VFile *f = findFile(name, false);
  if (f && n) memcpy(d, f->data, n);
}

using std::ios_base;
typedef std::basic_ios<char> Ios;
typedef std::filebuf FB;
extern "C" {
// fake virtual tables: only the virtual-base offset (first word) is ever used
long _ZTVSi[16] = {16};
long _ZTVSo[16] = {8};
long _ZTVSd[24] = {24};
long _ZTVSt9basic_iosIcSt11char_traitsIcEE[16] = {0};
long _ZTVSt14basic_ifstreamIcSt11char_traitsIcEE[16] = {sizeof(std::ifstream) - sizeof(Ios)};
long _ZTVSt14basic_ofstreamIcSt11char_traitsIcEE[16] = {sizeof(std::ofstream) - sizeof(Ios)};
long _ZTVSt13basic_filebufIcSt11char_traitsIcEE[24] = {0};
long _ZTVSt15basic_streambufIcSt11char_traitsIcEE[24] = {0};
void *_ZTTSi[2] = {&_ZTVSi[3], &_ZTVSi[3]};
void *_ZTTSt14basic_ifstreamIcSt11char_traitsIcEE[4] = {&_ZTVSt14basic_ifstreamIcSt11char_traitsIcEE[3], &_ZTVSt14basic_ifstreamIcSt11char_traitsIcEE[3], &_ZTVSt14basic_ifstreamIcSt11char_traitsIcEE[3], &_ZTVSt14basic_ifstreamIcSt11char_traitsIcEE[3]};
void *_ZTTSt14basic_ofstreamIcSt11char_traitsIcEE[4] = {&_ZTVSt14basic_ofstreamIcSt11char_traitsIcEE[3], &_ZTVSt14basic_ofstreamIcSt11char_traitsIcEE[3], &_ZTVSt14basic_ofstreamIcSt11char_traitsIcEE[3], &_ZTVSt14basic_ofstreamIcSt11char_traitsIcEE[3]};

void m_ios_ctor(Ios *s) asm("_ZNSt9basic_iosIcSt11char_traitsIcEEC2Ev");
void m_ios_ctor(Ios *s) {}
void m_iosb_ctor(ios_base *s) asm("_ZNSt8ios_baseC2Ev");
void m_iosb_ctor(ios_base *s) { s->_M_streambuf_state = ios_base::goodbit; }
void m_iosb_dtor(ios_base *s) asm("_ZNSt8ios_baseD2Ev");
void m_iosb_dtor(ios_base *s) {}
void m_ios_init(Ios *s, std::streambuf *b) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E");
void m_ios_init(Ios *s, std::streambuf *b) {
  s->_M_streambuf = b;
  s->_M_streambuf_state = b ? ios_base::goodbit : ios_base::badbit;
}
void m_ios_clear(Ios *s, std::_Ios_Iostate st) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
void m_ios_clear(Ios *s, std::_Ios_Iostate st) { s->_M_streambuf_state = s->_M_streambuf ? st : (st | ios_base::badbit); }
void m_ios_setstate(Ios *s, std::_Ios_Iostate st) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate");
void m_ios_setstate(Ios *s, std::_Ios_Iostate st) { s->_M_streambuf_state = s->_M_streambuf_state | st; }
bool m_ios_fail(const Ios *s) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv");
bool m_ios_fail(const Ios *s) { return s->_M_streambuf_state & (ios_base::badbit | ios_base::failbit); }
bool m_ios_good(const Ios *s) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv");
bool m_ios_good(const Ios *s) { return s->_M_streambuf_state == 0; }
bool m_ios_eof(const Ios *s) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv");
bool m_ios_eof(const Ios *s) { return s->_M_streambuf_state & ios_base::eofbit; }
bool m_ios_bad(const Ios *s) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv");
bool m_ios_bad(const Ios *s) { return s->_M_streambuf_state & ios_base::badbit; }
bool m_ios_not(const Ios *s) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool m_ios_not(const Ios *s) { return s->_M_streambuf_state & (ios_base::badbit | ios_base::failbit); }
bool m_ios_bool(const Ios *s) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool m_ios_bool(const Ios *s) { return !(s->_M_streambuf_state & (ios_base::badbit | ios_base::failbit)); }
std::_Ios_Iostate m_ios_rd(const Ios *s) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE7rdstateEv");
std::_Ios_Iostate m_ios_rd(const Ios *s) { return s->_M_streambuf_state; }
char m_ios_widen(const Ios *s, char c) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc");
char m_ios_widen(const Ios *s, char c) { return c; }

// streambuf / filebuf
void m_sb_dtor(std::streambuf *s) asm("_ZNSt15basic_streambufIcSt11char_traitsIcEED2Ev");
void m_sb_dtor(std::streambuf *s) {}
static void fbReset(FB *b) {
  b->_M_in_beg = b->_M_in_cur = b->_M_in_end = b->_M_out_beg = b->_M_out_cur = b->_M_out_end = nullptr;
  b->_M_buf = nullptr;  // the virtual file
  b->_M_mode = std::_Ios_Openmode(0);
}
void m_fb_ctor(FB *b) asm("_ZNSt13basic_filebufIcSt11char_traitsIcEEC1Ev");
void m_fb_ctor(FB *b) { fbReset(b); }
void m_fb_dtor(FB *b) asm("_ZNSt13basic_filebufIcSt11char_traitsIcEED1Ev");
void m_fb_dtor(FB *b) {}
void m_fb_dtor2(FB *b) asm("_ZNSt13basic_filebufIcSt11char_traitsIcEED2Ev");
void m_fb_dtor2(FB *b) {}
bool m_fb_isopen(const FB *b) asm("_ZNKSt13basic_filebufIcSt11char_traitsIcEE7is_openEv");
bool m_fb_isopen(const FB *b) { return b->_M_buf != nullptr; }
static bool fbOpen(FB *b, const char *name, std::_Ios_Openmode m) {
  VFile *f = findFile(name, (m & ios_base::out) != 0);
  if (!f) return false;
  if ((m & ios_base::out) && !(m & (ios_base::app | ios_base::in))) f->size = 0;
  b->_M_buf = (char *)f;
  b->_M_mode = m;
  if (m & ios_base::in) {
    b->_M_in_beg = b->_M_in_cur = (char *)f->data;
    b->_M_in_end = (char *)f->data + f->size;
  }
  return true;
}
FB *m_fb_open(FB *b, const char *n, std::_Ios_Openmode m) asm("_ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode");
FB *m_fb_open(FB *b, const char *n, std::_Ios_Openmode m) { return fbOpen(b, n, m) ? b : nullptr; }
FB *m_fb_opens(FB *b, const std::string &n, std::_Ios_Openmode m) asm("_ZNSt13basic_filebufIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
FB *m_fb_opens(FB *b, const std::string &n, std::_Ios_Openmode m) { return fbOpen(b, n.c_str(), m) ? b : nullptr; }
FB *m_fb_close(FB *b) asm("_ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv");
FB *m_fb_close(FB *b) { if (!b->_M_buf) return nullptr; fbReset(b); return b; }

// ifstream
static void ifInit(std::ifstream *s) {
  *(void **)s = &_ZTVSt14basic_ifstreamIcSt11char_traitsIcEE[3];
  s->_M_gcount = 0;
  fbReset(&s->_M_filebuf);
  Ios *i = s;
  i->_M_streambuf = &s->_M_filebuf;
  i->_M_streambuf_state = ios_base::goodbit;
}
static void ifOpen(std::ifstream *s, const char *n, std::_Ios_Openmode m) {
  Ios *i = s;
  if (fbOpen(&s->_M_filebuf, n, m | ios_base::in)) i->_M_streambuf_state = ios_base::goodbit;
  else i->_M_streambuf_state = i->_M_streambuf_state | ios_base::failbit;
}
void m_if_c0(std::ifstream *s) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1Ev");
void m_if_c0(std::ifstream *s) { ifInit(s); }
void m_if_c1(std::ifstream *s, const std::string &n, std::_Ios_Openmode m) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void m_if_c1(std::ifstream *s, const std::string &n, std::_Ios_Openmode m) { ifInit(s); ifOpen(s, n.c_str(), m); }
void m_if_c2(std::ifstream *s, const char *n, std::_Ios_Openmode m) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void m_if_c2(std::ifstream *s, const char *n, std::_Ios_Openmode m) { ifInit(s); ifOpen(s, n, m); }
void m_if_open(std::ifstream *s, const std::string &n, std::_Ios_Openmode m) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void m_if_open(std::ifstream *s, const std::string &n, std::_Ios_Openmode m) { ifOpen(s, n.c_str(), m); }
void m_if_open2(std::ifstream *s, const char *n, std::_Ios_Openmode m) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode");
void m_if_open2(std::ifstream *s, const char *n, std::_Ios_Openmode m) { ifOpen(s, n, m); }
void m_if_close(std::ifstream *s) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv");
void m_if_close(std::ifstream *s) { if (!m_fb_close(&s->_M_filebuf)) { Ios *i = s; i->_M_streambuf_state = i->_M_streambuf_state | ios_base::failbit; } }
void m_if_dtor(std::ifstream *s) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev");
void m_if_dtor(std::ifstream *s) {}
bool m_if_isopen(std::ifstream *s) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv");
bool m_if_isopen(std::ifstream *s) { return s->_M_filebuf._M_buf != nullptr; }
// ofstream
static void ofInit(std::ofstream *s) {
  *(void **)s = &_ZTVSt14basic_ofstreamIcSt11char_traitsIcEE[3];
  fbReset(&s->_M_filebuf);
  Ios *i = s;
  i->_M_streambuf = &s->_M_filebuf;
  i->_M_streambuf_state = ios_base::goodbit;
}
static void ofOpen(std::ofstream *s, const char *n, std::_Ios_Openmode m) {
  Ios *i = s;
  if (fbOpen(&s->_M_filebuf, n, m | ios_base::out)) i->_M_streambuf_state = ios_base::goodbit;
  else i->_M_streambuf_state = i->_M_streambuf_state | ios_base::failbit;
}
void m_of_c0(std::ofstream *s) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev");
void m_of_c0(std::ofstream *s) { ofInit(s); }
void m_of_c1(std::ofstream *s, const std::string &n, std::_Ios_Openmode m) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void m_of_c1(std::ofstream *s, const std::string &n, std::_Ios_Openmode m) { ofInit(s); ofOpen(s, n.c_str(), m); }
void m_of_c2(std::ofstream *s, const char *n, std::_Ios_Openmode m) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void m_of_c2(std::ofstream *s, const char *n, std::_Ios_Openmode m) { ofInit(s); ofOpen(s, n, m); }
void m_of_open(std::ofstream *s, const std::string &n, std::_Ios_Openmode m) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void m_of_open(std::ofstream *s, const std::string &n, std::_Ios_Openmode m) { ofOpen(s, n.c_str(), m); }
void m_of_open2(std::ofstream *s, const char *n, std::_Ios_Openmode m) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode");
void m_of_open2(std::ofstream *s, const char *n, std::_Ios_Openmode m) { ofOpen(s, n, m); }
void m_of_close(std::ofstream *s) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv");
void m_of_close(std::ofstream *s) { if (!m_fb_close(&s->_M_filebuf)) { Ios *i = s; i->_M_streambuf_state = i->_M_streambuf_state | ios_base::failbit; } }
void m_of_dtor(std::ofstream *s) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev");
void m_of_dtor(std::ofstream *s) {}
bool m_of_isopen(std::ofstream *s) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv");
bool m_of_isopen(std::ofstream *s) { return s->_M_filebuf._M_buf != nullptr; }
// istream over any buffer
void m_is_ctor(std::istream *s, std::streambuf *b) asm("_ZNSiC1EPSt15basic_streambufIcSt11char_traitsIcEE");
void m_is_ctor(std::istream *s, std::streambuf *b) {
  *(void **)s = &_ZTVSi[3];
  s->_M_gcount = 0;
  Ios *i = s;
  i->_M_streambuf = b;
  i->_M_streambuf_state = b ? ios_base::goodbit : ios_base::badbit;
}
void m_is_ctor0(std::istream *s) asm("_ZNSiC2Ev");
void m_is_ctor0(std::istream *s) { s->_M_gcount = 0; }
void m_is_dtor(std::istream *s) asm("_ZNSiD1Ev");
void m_is_dtor(std::istream *s) {}
void m_is_dtor2(std::istream *s) asm("_ZNSiD2Ev");
void m_is_dtor2(std::istream *s) {}
static bool good(std::istream *s) {
  Ios *i = s;
  if (i->_M_streambuf_state == 0) return true;
  i->_M_streambuf_state = i->_M_streambuf_state | ios_base::failbit;
  return false;
}
std::istream *m_is_read(std::istream *s, char *p, std::streamsize n) asm("_ZNSi4readEPcl");
std::istream *m_is_read(std::istream *s, char *p, std::streamsize n) {
  s->_M_gcount = 0;
  if (!good(s)) return s;
  Ios *i = s;
  std::streambuf *b = i->_M_streambuf;
  std::streamsize av = b->_M_in_end - b->_M_in_cur;
  std::streamsize k = n < av ? n : av;
  if (k > 0) memcpy(p, b->_M_in_cur, k);
  else k = 0;
  b->_M_in_cur += k;
  s->_M_gcount = k;
  if (k < n) i->_M_streambuf_state = i->_M_streambuf_state | ios_base::eofbit | ios_base::failbit;
  return s;
}
int m_is_get(std::istream *s) asm("_ZNSi3getEv");
int m_is_get(std::istream *s) {
  s->_M_gcount = 0;
  if (!good(s)) return -1;
  Ios *i = s;
  std::streambuf *b = i->_M_streambuf;
  if (b->_M_in_cur >= b->_M_in_end) { i->_M_streambuf_state = i->_M_streambuf_state | ios_base::eofbit | ios_base::failbit; return -1; }
  s->_M_gcount = 1;
  return (unsigned char)*b->_M_in_cur++;
}
int m_is_peek(std::istream *s) asm("_ZNSi4peekEv");
int m_is_peek(std::istream *s) {
  s->_M_gcount = 0;
  if (!good(s)) return -1;
  Ios *i = s;
  std::streambuf *b = i->_M_streambuf;
  if (b->_M_in_cur >= b->_M_in_end) { i->_M_streambuf_state = i->_M_streambuf_state | ios_base::eofbit; return -1; }
  return (unsigned char)*b->_M_in_cur;
}
std::fpos<mbstate_t> m_is_tellg(std::istream *s) asm("_ZNSi5tellgEv");
std::fpos<mbstate_t> m_is_tellg(std::istream *s) {
  Ios *i = s;
  if (i->_M_streambuf_state & (ios_base::failbit | ios_base::badbit)) return std::fpos<mbstate_t>(-1);
  return std::fpos<mbstate_t>(i->_M_streambuf->_M_in_cur - i->_M_streambuf->_M_in_beg);
}
std::istream *m_is_seek(std::istream *s, long off, std::_Ios_Seekdir d) asm("_ZNSi5seekgElSt12_Ios_Seekdir");
std::istream *m_is_seek(std::istream *s, long off, std::_Ios_Seekdir d) {
  Ios *i = s;
  i->_M_streambuf_state = i->_M_streambuf_state & ~ios_base::eofbit;
  if (i->_M_streambuf_state & (ios_base::failbit | ios_base::badbit)) return s;
  std::streambuf *b = i->_M_streambuf;
  long base = d == ios_base::beg ? 0 : d == ios_base::cur ? b->_M_in_cur - b->_M_in_beg : b->_M_in_end - b->_M_in_beg;
  long p = base + off;
  if (p < 0 || p > b->_M_in_end - b->_M_in_beg) { i->_M_streambuf_state = i->_M_streambuf_state | ios_base::failbit; return s; }
  b->_M_in_cur = b->_M_in_beg + p;
  return s;
}
std::istream *m_is_seekp(std::istream *s, std::fpos<mbstate_t> p) asm("_ZNSi5seekgESt4fposI11__mbstate_tE");
std::istream *m_is_seekp(std::istream *s, std::fpos<mbstate_t> p) { return m_is_seek(s, (long)(std::streamoff)p, ios_base::beg); }
// ostream
void m_os_ctor0(std::ostream *s) asm("_ZNSoC2Ev");
void m_os_ctor0(std::ostream *s) {}
void m_os_dtor2(std::ostream *s) asm("_ZNSoD2Ev");
void m_os_dtor2(std::ostream *s) {}
static void osPut(std::ostream *s, const char *p, std::streamsize n) {
  if (!*(long *)s) return;  // cerr/cout: no model, output dropped
  Ios *i = s;
  if (i->_M_streambuf_state != 0) return;
  FB *b = (FB *)i->_M_streambuf;
  if (!b->_M_buf) { i->_M_streambuf_state = i->_M_streambuf_state | ios_base::badbit; return; }
  vput((VFile *)b->_M_buf, p, n);
}
std::ostream *m_os_write(std::ostream *s, const char *p, std::streamsize n) asm("_ZNSo5writeEPKcl");
std::ostream *m_os_write(std::ostream *s, const char *p, std::streamsize n) { osPut(s, p, n); return s; }
std::ostream *m_os_put(std::ostream *s, char c) asm("_ZNSo3putEc");
std::ostream *m_os_put(std::ostream *s, char c) { osPut(s, &c, 1); return s; }
std::ostream *m_os_flush(std::ostream *s) asm("_ZNSo5flushEv");
std::ostream *m_os_flush(std::ostream *s) { return s; }
std::ostream *m_os_ins(std::ostream *s, const char *p, std::streamsize n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream *m_os_ins(std::ostream *s, const char *p, std::streamsize n) { osPut(s, p, n); return s; }
std::ostream *m_os_cstr(std::ostream *s, const char *p) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
std::ostream *m_os_cstr(std::ostream *s, const char *p) { if (*(long *)s) osPut(s, p, strlen(p)); return s; }
std::ostream *m_os_ch(std::ostream *s, char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
std::ostream *m_os_ch(std::ostream *s, char c) { osPut(s, &c, 1); return s; }
std::ostream *m_os_str(std::ostream *s, const std::string &t) asm("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::ostream *m_os_str(std::ostream *s, const std::string &t) { osPut(s, t.data(), t.size()); return s; }
}
