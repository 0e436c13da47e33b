// Identifier round trips, order, equality and hashing.
#include "symx.h"
#include <atomic>
#include <set>
#include <thread>
#include <vector>
#ifndef SYMX
extern bool g_symx_clock_still;
#endif
#include <string>
#include <aslam/common/unique-id.h>
#include <aslam/common/hash-id.h>
using aslam::HashId;
#include <thread>
namespace {
HashId anyHash(const char* n) { uint64_t v[2] = {symx_u64(n), symx_u64(n)}; HashId h; h.fromUint64(v); return h; }
aslam::FrameId anyId(const char* n) { aslam::FrameId f; f.fromHashId(anyHash(n)); return f; }
void roundTrip() {
  HashId id = anyHash("id");
  std::string s = id.hexString();
  SYMX_ASSERT(s.size() == 32u, "hex string has 32 characters");
  for (size_t i = 0; i < s.size(); i++) SYMX_ASSERT((static_cast<unsigned>(s[i] - '0') < 10u) | (static_cast<unsigned>(s[i] - 'a') < 6u), "hex string uses lower-case hexadecimal digits");
  HashId back = anyHash("junk");
  SYMX_ASSERT(back.fromHexString(s), "hex string is accepted");
  SYMX_ASSERT(back == id, "hex round trip gives the same id");
  uint64_t a[2], b[2]; id.toUint64(a); back.toUint64(b);
  SYMX_ASSERT(a[0] == b[0] && a[1] == b[1], "hex round trip gives the same words");
  // short form is a prefix
  std::string sh = id.shortHex();
  SYMX_ASSERT(sh.size() == 4u && sh == s.substr(0, 4), "short form is the prefix of the long one");
  symx_reach("roundTrip");
}
void injective() {
  HashId a = anyHash("a"), b = anyHash("b");
  symx_assume(a != b);
  SYMX_ASSERT(a.hexString() != b.hexString(), "different ids have different hex strings");
  symx_reach("injective");
}
// upper-case and mixed-case digits denote the same id
void upperCase() {
  HashId id = anyHash("id");
  std::string s = id.hexString(), t = s;
  for (size_t i = 0; i < t.size(); i++) { bool up = symx_bool("up"); char c = t[i]; bool letter = (c >= 'a') & (c <= 'f'); t[i] = (up & letter) ? c - 32 : c; }
  HashId back;
  SYMX_ASSERT(back.fromHexString(t), "mixed-case hex string is accepted");
  SYMX_ASSERT(back == id, "letter case does not matter");
  symx_reach("upperCase");
}
void badLength() {
  size_t n = symx_choose("n", 0, 40);
  symx_assume(n != 32);
  std::string s(n, '0');
  for (size_t i = 0; i < n; i++) s[i] = "0123456789abcdef"[symx_u8("c") & 15];
  HashId id = anyHash("id"); HashId before = id;
  SYMX_ASSERT(!id.fromHexString(s), "a string of another length is rejected");
  SYMX_ASSERT(id == before, "a rejected string leaves the id alone");
  symx_reach("badLength");
}
void proto() {
  aslam::FrameId id = anyId("id");
  aslam::proto::Id p;
  if (symx_bool("dirty")) { p.add_uint(symx_u64("old")); if (symx_bool("dirty2")) { p.add_uint(symx_u64("old")); p.add_uint(symx_u64("old")); } }
  id.serialize(&p);
  SYMX_ASSERT(p.uint_size() == 2, "message carries exactly two words");
  aslam::FrameId back = anyId("junk");
  back.deserialize(p);
  SYMX_ASSERT(back == id, "message round trip gives the same id");
  aslam::FrameId c(p);
  SYMX_ASSERT(c == id, "construction from a message gives the same id");
  aslam::Id plain(p);
  SYMX_ASSERT(plain.correspondsTo(p), "an id corresponds to its message");
  aslam::FrameId typed = plain.toIdType<aslam::FrameId>();
  SYMX_ASSERT(typed == id, "retyping keeps the id");
  HashId h; id.toHashId(&h);
  aslam::FrameId again; again.fromHashId(h);
  SYMX_ASSERT(again == id, "hash round trip gives the same id");
  aslam::FrameId other = anyId("other");
  symx_assume(other != id);
  aslam::proto::Id q; other.serialize(&q);
  SYMX_ASSERT(!plain.correspondsTo(q), "an id does not correspond to another id's message");
  symx_reach("proto");
}
void protoBadSize() {
  int n = (int)symx_choose("words", 0, 4);
  symx_assume(n != 2);
  aslam::proto::Id p; for (int i = 0; i < n; i++) p.add_uint(symx_u64("w"));
  int rc = symx_try([&] { aslam::FrameId id; id.deserialize(p); });
  SYMX_ASSERT(rc == 1, "a message without exactly two words is refused");
  symx_reach("protoBadSize");
}
void print() {
  aslam::FrameId id = anyId("id");
  std::string s = id.printString(), h = id.hexString();
  SYMX_ASSERT(s.size() == 10u && s[4] == '.' && s[5] == '.' && s.substr(0, 4) == h.substr(0, 4) && s.substr(6, 4) == h.substr(28, 4), "printed form shows both ends of the hex string");
  symx_reach("print");
}
template <class T, class Mk> void orderOf(Mk mk) {
  T a = mk("a"), b = mk("b"), c = mk("c");
  SYMX_ASSERT(!(a < a), "order is irreflexive");
  SYMX_ASSERT(!((a < b) & (b < a)), "order is antisymmetric");
  SYMX_ASSERT(!((a < b) & (b < c)) | (a < c), "order is transitive");
  SYMX_ASSERT((a < b) | (b < a) | (a == b), "order is total");
  SYMX_ASSERT(!((a < b) & (a == b)), "order and equality exclude each other");
  SYMX_ASSERT(!((a == b) & (b == c)) | (a == c), "equality is transitive");
  SYMX_ASSERT((a == b) == (b == a), "equality is symmetric");
  SYMX_ASSERT((a != b) == !(a == b), "inequality is the negation of equality");
  T d(a);
  SYMX_ASSERT(d == a, "a copy is equal");
  d = b;
  SYMX_ASSERT(d == b, "an assigned id is equal");
  SYMX_ASSERT((a.hexString() == b.hexString()) == (a == b), "equality agrees with the textual form");
}
void orderHash() {
  orderOf<HashId>(anyHash);
  HashId a = anyHash("a"), b = anyHash("b");
  SYMX_ASSERT((a > b) == (b < a), "greater-than mirrors less-than");
  symx_reach("orderHash");
}
void orderId() { orderOf<aslam::FrameId>(anyId); symx_reach("orderId"); }
void hashing() {
  aslam::FrameId a = anyId("a"), b = anyId("b");
  HashId ha, hb; a.toHashId(&ha); b.toHashId(&hb);
  bool eq = a == b;
  SYMX_ASSERT(!eq | (std::hash<HashId>()(ha) == std::hash<HashId>()(hb)), "equal ids hash equally");
  SYMX_ASSERT(!eq | (std::hash<aslam::FrameId>()(a) == std::hash<aslam::FrameId>()(b)), "equal typed ids hash equally");
  SYMX_ASSERT(!eq | (ha.hashToSizeTFast() == hb.hashToSizeTFast()), "equal ids have equal fast hashes");
  aslam::FrameId c = anyId("c"), d = anyId("d");
  std::hash<std::pair<aslam::FrameId, aslam::FrameId>> hp;
  SYMX_ASSERT(!(eq & (c == d)) | (hp(std::make_pair(a, c)) == hp(std::make_pair(b, d))), "equal pairs hash equally");
  symx_reach("hashing");
}
void validity() {
  HashId z;
  SYMX_ASSERT(!z.isValid(), "a default id is invalid");
  HashId a = anyHash("a");
  SYMX_ASSERT(a.isValid() == (a != z), "an id is valid exactly if it differs from the default");
  a.setInvalid();
  SYMX_ASSERT(!a.isValid() && a == z, "an invalidated id is the default id");
  aslam::FrameId f = anyId("f"), g;
  SYMX_ASSERT(f.isValid() == (f != g), "a typed id is valid exactly if it differs from the default");
  symx_reach("validity");
}
void generate() {
  const int n = (int)symx_param("n", 4);
  aslam::FrameId ids[8];
  for (int i = 0; i < n; i++) {
    aslam::generateId(&ids[i]);
    SYMX_ASSERT(ids[i].isValid(), "a generated id is valid");
    for (int j = 0; j < i; j++) SYMX_ASSERT(ids[i] != ids[j], "generated ids are distinct whatever the clock shows");
  }
  aslam::SensorId s = aslam::createRandomId<aslam::SensorId>();
  HashId h; s.toHashId(&h);
  for (int i = 0; i < n; i++) { HashId g; ids[i].toHashId(&g); SYMX_ASSERT(h != g, "ids of different types share no value"); }
  symx_reach("generate");
}
// ids generated by several threads at once
void generateThreads() {
#ifndef SYMX
  g_symx_clock_still = true;
#endif
  if (symx_native()) {  // interleavings of atomic operations cannot be replayed: stress instead, with the clock standing still
    std::vector<std::vector<std::pair<uint64_t, uint64_t>>> got(8); std::vector<std::thread> th; std::atomic<int> go(0);
    for (int k = 0; k < 8; k++) th.emplace_back([&, k] { ++go; while (go < 8) {} for (int i = 0; i < 100000; i++) { aslam::FrameId f; aslam::generateId(&f); HashId q; f.toHashId(&q); uint64_t h[2]; q.toUint64(h); got[k].push_back(std::make_pair(h[0], h[1])); } });
    for (auto& t : th) t.join();
    std::set<std::pair<uint64_t, uint64_t>> all; for (auto& g : got) for (auto& v : g) SYMX_ASSERT(all.insert(v).second, "ids generated concurrently are distinct");
    return;
  }
  aslam::FrameId ids[2][2]; const int per = (int)symx_param("n", 1);
  aslam::FrameId first; aslam::generateId(&first);
  std::thread t([&] { for (int i = 0; i < per; i++) aslam::generateId(&ids[1][i]); });
  for (int i = 0; i < per; i++) aslam::generateId(&ids[0][i]);
  t.join();
  for (int i = 0; i < per; i++) for (int j = 0; j < per; j++) SYMX_ASSERT(ids[0][i] != ids[1][j], "ids generated concurrently are distinct");
  for (int i = 0; i < per; i++) for (int k = 0; k < 2; k++) { SYMX_ASSERT(ids[k][i].isValid(), "an id generated concurrently is valid"); SYMX_ASSERT(ids[k][i] != first, "ids generated concurrently are new"); }
  symx_reach("generateThreads");
}
void fromInt() {
  unsigned i = symx_u32("i");
  if (symx_param("max", 0)) symx_assume(i < symx_param("max", 0));
  aslam::FrameId a;
  aslam::generateIdFromInt(i, &a);
  SYMX_ASSERT(a.isValid() == (i != 0), "an id made from a positive integer is valid");
  // the id spells the decimal digits of the integer, so different integers give different ids
  const std::string h = a.hexString();
  unsigned v = i;
  for (int k = 31; k >= 0; k--) { SYMX_ASSERT(h[k] == static_cast<char>('0' + v % 10u), "an id made from an integer spells its decimal digits"); v /= 10u; }
  symx_reach("fromInt");
}
}
extern "C" void symx_main() {
  switch (symx_param("case", 0)) {
    case 0: roundTrip(); break; case 1: injective(); break; case 2: upperCase(); break; case 3: badLength(); break;
    case 4: proto(); break; case 5: protoBadSize(); break; case 6: print(); break; case 7: orderHash(); break;
    case 8: orderId(); break; case 9: hashing(); break; case 10: validity(); break; case 11: generate(); break;
    case 12: fromInt(); break; case 13: generateThreads(); break;
  }
}
