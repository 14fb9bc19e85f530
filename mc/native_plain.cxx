// P18: a structure used in the plainest way, the results of erase() are
// ignored.  This file is compiled with -O2 -fno-inline: the compiler has to
// rely on the declarations (purity of functions) instead of the definitions.
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/schema.h"

#include <string>
#include <vector>

namespace {
struct Record {
  uint32_t number;
  int16_t half;
  fptu::preplaced_string text;
  double real;
};
typedef FPTU_TOKEN(Record, number) Number;
typedef FPTU_TOKEN(Record, half) Half;
typedef FPTU_TOKEN(Record, text) Text;
typedef FPTU_TOKEN(Record, real) Real;

struct Model {
  uint32_t number = 0;
  int16_t half = 0;
  std::string text;
  double real = 0;
};

template <class T>
std::string play(T &t, const std::vector<unsigned> &ops,
                 const fptu::token *dyn) {
  Model m;
  std::string trace;
  for (unsigned op : ops) {
    const unsigned v = op % 3;
    trace += " " + std::to_string(op);
    switch (op / 3) {
    case 0:
      m.number = v * 7000;
      if (v)
        t.set_u32(Number(), m.number);
      else
        t.erase(Number());
      break;
    case 1:
      m.half = int16_t(v * -5);
      if (v)
        t.set_i16(Half(), m.half);
      else
        t.erase(Half());
      break;
    case 2:
      m.text = v ? v == 1 ? "a" : "a longer text" : "";
      if (v)
        t.set_string(Text(), fptu::string_view(m.text));
      else
        t.erase(Text());
      break;
    case 3:
      m.real = v * 0.5;
      if (v)
        t.set_f64(Real(), m.real);
      else
        t.erase(Real());
      break;
    }
    const auto s = t.get_string(Text());
    const auto d = t.get_string(dyn[2]);
    if (t.get_u32(Number()) != m.number || t.get_u32(dyn[0]) != m.number)
      return "number, after" + trace;
    if (t.get_i16(Half()) != m.half || t.get_i16(dyn[1]) != m.half)
      return "half, after" + trace;
    if (std::string(s.data(), s.size()) != m.text ||
        std::string(d.data(), d.size()) != m.text)
      return "text, after" + trace;
    if (t.get_f64(Real()) != m.real || t.get_f64(dyn[3]) != m.real)
      return "real, after" + trace;
    const auto w = t.take_weak_asis();
    const Record *r = static_cast<const Record *>(w.payload());
    if (r->number != m.number || r->half != m.half || r->real != m.real)
      return "the structure, after" + trace;
    if (const char *trouble = t.validate())
      return std::string(trouble) + ", after" + trace;
  }
  return "";
}
} // namespace

unsigned native_plain_ops() { return 12; }
std::string native_plain(const std::vector<unsigned> &ops, bool growing) {
  static fptu::token dyn[4];
  static const std::unique_ptr<fptu::schema> schema = [] {
    auto s = fptu::schema::create();
    dyn[0] = s->import_definition("number", fptu::token(Number()));
    dyn[1] = s->import_definition("half", fptu::token(Half()));
    dyn[2] = s->import_definition("text", fptu::token(Text()));
    dyn[3] = s->import_definition("real", fptu::token(Real()));
    return s;
  }();
  if (growing) {
    fptu::tuple_rw_managed t(0, 0, schema.get());
    return play(t, ops, dyn);
  }
  fptu::tuple_rw_fixed t(4, 100, schema.get());
  return play(t, ops, dyn);
}
