// Instantiates every public class template and member template of the headers,
// so that the exporter sees resolved bodies of all of them.
#include <reflex/abslexer.h>
#include <reflex/absmatcher.h>
#include <reflex/bits.h>
#include <reflex/boostmatcher.h>
#include <reflex/convert.h>
#include <reflex/debug.h>
#include <reflex/error.h>
#include <reflex/input.h>
#include <reflex/matcher.h>
#include <reflex/pattern.h>
#include <reflex/pcre2matcher.h>
#include <reflex/posix.h>
#include <reflex/ranges.h>
#include <reflex/setop.h>
#include <reflex/stdmatcher.h>
#include <reflex/timer.h>
#include <reflex/traits.h>
#include <reflex/unicode.h>
#include <reflex/utf8.h>
#include <fuzzymatcher.h>

template class reflex::AbstractLexer<reflex::Matcher>;
template class reflex::AbstractLexer<reflex::FuzzyMatcher>;
template class reflex::AbstractLexer<reflex::BoostMatcher>;
template class reflex::AbstractLexer<reflex::StdMatcher>;
template class reflex::AbstractLexer<reflex::PCRE2Matcher>;
template class reflex::PatternMatcher<reflex::Pattern>;
template class reflex::PatternMatcher<boost::regex>;
template class reflex::PatternMatcher<std::regex>;
template class reflex::Ranges<int>;
template class reflex::ORanges<int>;
template class reflex::ORanges<reflex::Pattern::Location>;

namespace rxverif {
void uses(const char *s, std::string& str, std::wstring& ws, FILE *f, std::istream& is, reflex::Input& in)
{
  reflex::Pattern p(s, s), p2(str, str), p3(p);
  reflex::Pattern p4;
  p4 = p; p4 = s; p4 = str;
  p4.assign(s, s);
  p4.assign(str, str);
  reflex::Matcher m, m1(p, in, s), m2(s, in, s), m3(str, in, s), m4(m1), m5(&p, in, s);
  m = m1; m.pattern(p); m.pattern(s); m.pattern(&p); m.pattern(str);
  m.input(in);
  reflex::FuzzyMatcher z, z1(p, in, s), z2(s, 2, in, s), z3(p, 2, in, s), z4(z1), z5(str, in, s), z6(str, 2, in, s);
  z = z1;
  reflex::BoostMatcher b, b1(boost::regex(s), in, s), b2(s, in, s), b3(str, in, s), b4(b1);
  b = b1; b.pattern(s); b.pattern(str);
  reflex::BoostPosixMatcher bp, bp1(s, in, s), bp2(str, in, s);
  reflex::BoostPerlMatcher bl, bl1(s, in, s), bl2(str, in, s);
  reflex::StdMatcher d, d1(std::regex(s), in, s), d2(s, in, s), d3(str, in, s), d4(d1);
  d = d1; d.pattern(s); d.pattern(str);
  reflex::StdEcmaMatcher e, e1(s, in, s), e2(str, in, s);
  reflex::StdPosixMatcher q, q1(s, in, s), q2(str, in, s);
  reflex::PCRE2Matcher c, c1(s, in, s), c2(str, in, s), c3(c1);
  c = c1; c.pattern(s); c.pattern(str); 
  reflex::PCRE2UTFMatcher u, u1(s, in, s), u2(str, in, s);
  reflex::Input i0, i1(in), i2(s), i3(s, 1), i4(str), i5(ws), i6(f), i7(is), i8(ws.c_str()), i9(f, 1), i10(&is), i11(&str), i12(&ws);
  i0 = i1;
  reflex::BufferedInput bi0, bi1(in), bi2(bi0), bi3(f);
  reflex::BufferedInput::streambuf sb3(bi1);
  reflex::BufferedInput::dos_streambuf sb4(bi1);
  reflex::Input::streambuf sb1(in);
  reflex::Input::dos_streambuf sb2(in);
  char ch; i0 >> ch; 
  reflex::Bits bits, bits2(bits); bits = bits2; bits |= bits2; bits &= bits2; bits ^= bits2; bits -= bits2;
  (void)(bits | bits2); (void)(bits & bits2); (void)(bits ^ bits2); (void)(bits - bits2); (void)(bits == bits2); (void)(bits < bits2);
  bits[1] = true; bits[2] |= true; bits[3] &= true; bits[4] ^= true; (void)(~bits);
  reflex::ORanges<int> r; r.insert(1); r.insert(1, 2); r.erase(1, 2);  (void)r.find(1, 2);
  reflex::AbstractLexer<reflex::Matcher> lx(in, std::cout);
  lx.in(in); lx.in(s); lx.buffer(const_cast<char*>(s), 1);
  std::string cv = reflex::BoostMatcher::convert(s) + reflex::BoostMatcher::convert(str) + reflex::StdMatcher::convert(s) + reflex::StdEcmaMatcher::convert(s) + reflex::StdPosixMatcher::convert(s) + reflex::PCRE2Matcher::convert(s) + reflex::PCRE2UTFMatcher::convert(s) + reflex::Matcher::convert(s) + reflex::Matcher::convert(str);
  reflex::AbstractMatcher::iterator it = m.scan.begin(); ++it; it++; if (it == m.scan.end() || it != m.find.end()) it->text();
  while (m.find()) m.text();
  while (m.split()) m.text();
  m.matches();
  std::set<int> s1, s2; std::map<int, std::set<int> > mp;
  reflex::set_insert(s1, s2); reflex::set_delete(s1, s2); (void)reflex::is_in_set(1, s1); (void)reflex::is_subset(s1, s2); (void)reflex::is_disjoint(s1, s2);
  reflex::lazy_intersection<std::set<int>, std::set<int> > li(s1, s2); for (reflex::lazy_intersection<std::set<int>, std::set<int> >::iterator k = li.begin(); k != li.end(); ++k) { (void)*k; }
  reflex::lazy_union<std::set<int>, std::set<int> > lu(s1, s2); for (reflex::lazy_union<std::set<int>, std::set<int> >::iterator k = lu.begin(); k != lu.end(); ++k) { (void)*k; }
  reflex::timer_type t; reflex::timer_start(t); reflex::timer_elapsed(t);
}
}
