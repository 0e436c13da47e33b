import runpy, os
_s1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py"))
CH, LIBC, C, CI = _s1["CH"], _s1["LIBC"], _s1["C"], _s1["CI"]
CAM = "aslam_cv_cameras/src/"
DSRC = "aslam_cv_cameras/src/distortion*.cc"
SEEDS = []
def seed(**k): SEEDS.append(k)

TH = CH + r"""#include <atomic>
#include <chrono>
#include <thread>
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
"""
seed(id="rw_isinuse_upgrade", prop="P03", libs=LIBC, needs="the usage is asked for while a reader-first lock's writer was released and readers have not woken up yet, or a writer waits",
  breaks="a thread that waits to read no longer counts as a user of the lock",
  edits=[(C + "reader-writer-lock.cc", "  ++pending_readers_;\n  while (num_pending_writers_ != 0u || pending_upgrade_ || current_writer_) {\n    cv_writer_finished_.wait(lock);\n  }\n  --pending_readers_;\n", "  while (num_pending_writers_ != 0u || pending_upgrade_ || current_writer_) {\n    cv_writer_finished_.wait(lock);\n  }\n")], demo=TH + r"""
#include <aslam/common/reader-writer-lock.h>
// A lock that can be looked at: waits for the moment between the writer's release and the reader's wake-up.
struct M : aslam::ReaderWriterMutex {
  bool pendingCounted() {  // releases the writer and looks at the lock before the waiting reader can.
    std::unique_lock<std::mutex> l(mutex_); current_writer_ = false; unsigned p = pending_readers_; l.unlock(); cv_writer_finished_.notify_all(); return p == 1u;
  }
};
int main() {
  M m; m.acquireWriteLock();
  std::thread r([&] { m.acquireReadLock(); m.releaseReadLock(); });
  ms(200);
  bool ok = m.pendingCounted();
  r.join();
  CHK(ok);
  return 0;
}
""")
seed(id="pool_starved", prop="P05", libs=LIBC, needs="every group that ever had a task is busy while an unordered task is queued and a worker is free",
  breaks="unordered tasks are only looked at if some group is idle or no groups exist, so a busy group holds them up",
  edits=[(C + "thread-pool.cc", "      if (!all_guards_active || num_queued_nonexclusive_tasks > 0u) {", "      if (!all_guards_active || groupid_exclusivity_guards_.empty()) {")], demo=TH + r"""
#include <aslam/common/thread-pool.h>
int main() {
  std::atomic<bool> flag(false); std::atomic<int> waited(0);
  aslam::ThreadPool pool(2);
  auto a = pool.enqueueOrdered(1, [&] { for (int i = 0; i < 200 && !flag; ++i) ms(10); waited = flag ? 1 : 2; });
  ms(20);
  auto b = pool.enqueue([&] { flag = true; });
  a.get(); b.get();
  CHK(waited == 1);
  return 0;
}
""")
seed(id="pool_any_group", prop="P05", libs=LIBC, needs="two groups: the second has a task queued while the first is being serviced and a worker is free",
  breaks="a busy group makes all workers sleep although another group could be serviced",
  edits=[(C + "thread-pool.cc", "      const bool all_guards_active = std::all_of(", "      const bool all_guards_active =\n          !groupid_exclusivity_guards_.empty() && std::any_of(")], demo=TH + r"""
#include <aslam/common/thread-pool.h>
int main() {
  std::atomic<bool> flag(false); std::atomic<int> waited(0);
  aslam::ThreadPool pool(2);
  auto a = pool.enqueueOrdered(1, [&] { for (int i = 0; i < 200 && !flag; ++i) ms(10); waited = flag ? 1 : 2; });
  ms(20);
  auto b = pool.enqueueOrdered(2, [&] { flag = true; });
  a.get(); b.get();
  CHK(waited == 1);
  return 0;
}
""")
seed(id="time_int_units", prop="P10", libs=LIBC, needs="a whole number of units beyond 32 bits", breaks="compile-time unit conversions cut the number of units to 32 bits",
  edits=[(CI + "time.h", "convertToNanosecondsCompileTime(\n    int64_t value) {", "convertToNanosecondsCompileTime(\n    int value) {")], demo=CH + r"""
#include <string>
#include <limits>
#include <aslam/common/time.h>
int main() {
  CHK(aslam::time::milliseconds(5000000000ll) == 5000000000000000ll);
  CHK(aslam::time::nanoseconds(-3000000000ll) == -3000000000ll);
  CHK(aslam::time::seconds(5) == 5000000000ll);
  return 0;
}
""")
seed(id="time_from_product", prop="P10", libs=LIBC, needs="a value whose rounding differs when multiplied by the inverse of the unit", breaks="converting from nanoseconds multiplies by a rounded inverse, so results are off by rounding",
  edits=[(CI + "time.h", "  return static_cast<double>(value) / static_cast<double>(time_traits<TimeUnit>::nanoseconds);", "  return static_cast<double>(value) *\n      (1.0 / static_cast<double>(time_traits<TimeUnit>::nanoseconds));")], demo=CH + r"""
#include <string>
#include <limits>
#include <aslam/common/time.h>
int main() {
  for (int64_t v = 1; v < 200000; ++v) {
    volatile double a = static_cast<double>(v * 1000 + 7); volatile double b = 1e9;
    CHK(aslam::time::to_seconds(v * 1000 + 7) == a / b);
  }
  CHK(aslam::time::to_milliseconds(3000000) == 3.0);
  return 0;
}
""")
seed(id="hamming_saturate", prop="P11", libs=LIBC, needs="descriptors of more than 15 words that differ in almost all bits", breaks="the byte counters saturate at 127, so large distances are cut off",
  edits=[(CI + "hamming-inl.h", "    xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.", "    xmm4 = _mm_adds_epi8(xmm4, xmm3);  // Accumulator.")], demo=CH + r"""
#include <cstdint>
#include <cstring>
#include <glog/logging.h>
#include <aslam/common/hamming.h>
int main() {
  alignas(16) static unsigned char a[480], b[480]; std::memset(b, 255, 480);
  aslam::common::Hamming h;
  for (int n = 16; n <= 480; n += 16) CHK(h(a, b, n) == n * 8);
  return 0;
}
""")
seed(id="hamming_high_nibble", prop="P11", libs=LIBC, needs="bytes whose upper half differs in the bits 1, 1, 1, 0", breaks="one entry of the bit count table is wrong",
  edits=[(CI + "hamming-inl.h", "  2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4};\n#endif  // __GNUC__", "  2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 2, 4};\n#endif  // __GNUC__")], demo=CH + r"""
#include <cstdint>
#include <cstring>
#include <glog/logging.h>
#include <aslam/common/hamming.h>
int main() {
  alignas(16) unsigned char a[16] = {0}, b[16]; aslam::common::Hamming h;
  for (int v = 0; v < 256; ++v) { std::memset(b, 0, 16); b[v % 16] = v; CHK(h(a, b, 16) == __builtin_popcount(v)); }
  return 0;
}
""")
DD = CH + r"""
#include <cstring>
#include <aslam/common/feature-descriptor-ref.h>
using namespace aslam::common;
"""
seed(id="descr_owner_follows_view", prop="P12", libs=LIBC, needs="a descriptor that owns its bytes is assigned from a view", breaks="an owner that is assigned a view drops its memory and refers to the view's memory from then on",
  edits=[(CI + "feature-descriptor-ref-inl.h", "  if (owned_ || lhs.owned_) {", "  if (lhs.owned_) {")], demo=DD + r"""
int main() {
  unsigned char mem[16]; std::memset(mem, 3, 16);
  FeatureDescriptorRef view(mem, 16, false), owner(16u);
  owner = view; mem[5] = 9;
  CHK(owner[5] == 3); CHK(owner.data() != mem);
  return 0;
}
""")
seed(id="descr_equal_prefix", prop="P12", libs=LIBC, needs="two descriptors that agree up to a zero byte and differ after it", breaks="descriptors are compared like texts, up to the first zero byte",
  edits=[(CI + "feature-descriptor-ref-inl.h", "    same &= (memcmp(data_, lhs.data_, size_bytes_) == 0);", "    same &= (strncmp(reinterpret_cast<const char*>(data_),\n                     reinterpret_cast<const char*>(lhs.data_), size_bytes_) == 0);")], demo=DD + r"""
int main() {
  unsigned char a[16] = {1, 2, 0, 4}, b[16] = {1, 2, 0, 5};
  FeatureDescriptorConstRef x(a, 16), y(b, 16), z(a, 16);
  CHK(!(x == y)); CHK(x == z);
  return 0;
}
""")
seed(id="descr_median_narrow", prop="P13", libs=LIBC, needs="descriptors whose distances to the others add up to more than 255", breaks="the distances are added up in bytes",
  edits=[(CI + "descriptor-utils.h", """  Eigen::MatrixXi hamming_distance_matrix =
      Eigen::MatrixXi::Zero(num_descriptors, num_descriptors);""", """  typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> DistanceMatrix;
  DistanceMatrix hamming_distance_matrix =
      DistanceMatrix::Zero(num_descriptors, num_descriptors);""")], demo=CH + r"""
#include <aslam/common/descriptor-utils.h>
int main() {
  using namespace aslam::common::descriptor_utils;
  DescriptorsType d(32, 4); d.setZero();
  // distances: 64 between the first three, 104 to the last one: totals 232 and 312
  for (int j = 0; j < 3; ++j) d.block(4 * j, j, 4, 1).setConstant(255);
  d.block(16, 3, 9, 1).setConstant(255);
  size_t i = 9; getIndexOfDescriptorClosestToMedian(d, &i); CHK(i < 3u);
  return 0;
}
""")
seed(id="descr_mean_odd", prop="P13", libs=LIBC, needs="an odd number of descriptors with a bit set in just more than half of them", breaks="a bit of the mean needs one descriptor more than half if their number is odd",
  edits=[(CI + "feature-descriptor-ref-inl.h", "  int half = features.size() / 2;", "  int half = (features.size() + 1) / 2;")], demo=DD + r"""
int main() {
  unsigned char a[16] = {1}, b[16] = {1}, c[16] = {0}; unsigned char m[16];
  FeatureDescriptorRef x(a, 16, false), y(b, 16, false), z(c, 16, false), mean(m, 16, false);
  std::vector<FeatureDescriptorRef*> f; f.push_back(&x); f.push_back(&y); f.push_back(&z);
  DescriptorMean(f, &mean); CHK(m[0] == 1);
  return 0;
}
""")
CHAN = CH + r"""
#include <opencv2/imgproc/imgproc_c.h>
#include <aslam/common/channel-declaration.h>
#include <string>
using namespace aslam::internal;
"""
LIBCV = LIBC + " -lopencv_core"
seed(id="chan_list_first", prop="P15", libs=LIBCV, needs="a list of matrices with different numbers of columns, written as a buffer", breaks="the header of every matrix of a list says the columns of the first one",
  edits=[(CI + "channel-serialization.h", """    const int cols = matrices[i].cols();

    makeHeaderInformation<Scalar>(rows, cols, channels, &header);
    bool success = header.serializeToBuffer(*buffer, offset);""", """    const int cols = matrices[i].cols();

    makeHeaderInformation<Scalar>(
        rows, matrices.front().cols(), channels, &header);
    bool success = header.serializeToBuffer(*buffer, offset);""")], demo=CHAN + r"""
int main() {
  std::vector<Eigen::Matrix<double, 2, Eigen::Dynamic>> v(2), w; v[0].resize(2, 3); v[0].setOnes(); v[1].resize(2, 1); v[1].setConstant(2);
  char* b = nullptr; size_t n = 0; CHK(serializeToBuffer(v, &b, &n));
  uint32_t rows, cols; size_t off = 8 + 16 + 6 * sizeof(double); std::memcpy(&rows, b + off, 4); std::memcpy(&cols, b + off + 4, 4);
  CHK(rows == 2 && cols == 1);
  CHK(deSerializeFromBuffer(b, n, &w)); CHK(w.size() == 2u); CHK(w[1].cols() == 1); CHK(w[1] == v[1]);
  delete[] b;
  return 0;
}
""")
seed(id="chan_mat_int8", prop="P15", libs=LIBCV, needs="an image of signed bytes written as text", breaks="images of signed bytes are written as unsigned ones and come back with another type",
  edits=[(C + "channel-serialization.cc", "    success = serializeToString<int8_t>(matrixData, image.rows,", "    success = serializeToString<uint8_t>(matrixData, image.rows,")], demo=CHAN + r"""
int main() {
  cv::Mat m(2, 2, CV_8SC1); m.setTo(-3); std::string s; CHK(serializeToString(m, &s));
  cv::Mat r; CHK(deSerializeFromString(s, &r)); CHK(r.type() == m.type()); CHK(r.at<int8_t>(1, 1) == -3);
  return 0;
}
""")
seed(id="chan_trailing", prop="P16", libs=LIBCV, needs="a matrix followed by further bytes", breaks="data that is longer than announced is accepted",
  edits=[(CI + "channel-serialization.h", "  size_t total_size = matrix_size + header.size();\n  CHECK_EQ(size, total_size);\n  memcpy(matrix->data()", "  size_t total_size = matrix_size + header.size();\n  CHECK_GE(size, total_size);\n  memcpy(matrix->data()")], demo=CHAN + r"""
#include <sys/wait.h>
#include <unistd.h>
int main() {
  Eigen::Matrix<double, 2, Eigen::Dynamic> m(2, 3), r; m.setOnes(); std::string s; CHK(serializeToString(m, &s)); CHK(deSerializeFromString(s, &r)); CHK(m == r);
  s += "x";
  pid_t p = fork();
  if (!p) { FLAGS_logtostderr = true; try { _exit(deSerializeFromString(s, &r) ? 0 : 1); } catch (...) { _exit(1); } }
  int st = 0; waitpid(p, &st, 0); CHK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0));
  return 0;
}
""")
seed(id="chan_cols_unchecked", prop="P16", libs=LIBCV, needs="a list of matrices with a fixed number of columns, whose data announces fewer columns", breaks="the announced number of columns is only checked if the rows may vary",
  edits=[(CI + "channel-serialization.h", """    if (COLS != Eigen::Dynamic) {
      CHECK_EQ(header.cols, static_cast<uint32_t>(COLS));
    }
    CHECK_EQ(header.depth""", """    if (COLS != Eigen::Dynamic && ROWS == Eigen::Dynamic) {
      CHECK_EQ(header.cols, static_cast<uint32_t>(COLS));
    }
    CHECK_EQ(header.depth""")], demo=CHAN + r"""
#include <sys/wait.h>
#include <unistd.h>
int main() {
  std::vector<Eigen::Matrix<int, 2, 2>> m(1), r; m[0].setOnes(); std::string s; CHK(serializeToString(m, &s)); CHK(deSerializeFromString(s, &r)); CHK(r.size() == 1u && m[0] == r[0]);
  s[8 + 4] = 1;  // one column
  pid_t p = fork();
  if (!p) { FLAGS_logtostderr = true; try { _exit(deSerializeFromString(s, &r) ? 0 : 1); } catch (...) { _exit(1); } }
  int st = 0; waitpid(p, &st, 0); CHK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0));
  return 0;
}
""")
seed(id="group_subset_equal", prop="P17", libs=LIBCV, needs="the second group has all channels of the first one and more", breaks="a group equals any group that has at least its channels",
  edits=[(C + "channel.cc", "  if (left_channels.channels_.size() != right_channels.channels_.size()) {", "  if (left_channels.channels_.size() > right_channels.channels_.size()) {")], demo=CHAN + r"""
using namespace aslam::channels;
int main() {
  ChannelGroup a, b; addChannel<int>("x", &a) = 1; addChannel<int>("x", &b) = 1; CHK(isChannelGroupEqual(a, b));
  addChannel<int>("y", &b) = 2; CHK(!isChannelGroupEqual(b, a)); CHK(!isChannelGroupEqual(a, b));
  return 0;
}
""")
seed(id="group_clone_shared", prop="P17", libs=LIBCV, needs="a channel that is shared by two groups is cloned", breaks="channels that more than one group refers to are not copied by a clone",
  edits=[(C + "channel.cc", """    cloned_group.channels_.emplace(channel.first,
                                   std::shared_ptr<ChannelBase>(channel.second->clone()));""", """    // Channels that are shared already can be shared once more.
    cloned_group.channels_.emplace(
        channel.first, channel.second.use_count() > 1 ?
            channel.second : std::shared_ptr<ChannelBase>(channel.second->clone()));""")], demo=CHAN + r"""
using namespace aslam::channels;
int main() {
  ChannelGroup a, b; addChannel<int>("x", &a) = 1; b = a;
  ChannelGroup c; addChannel<int>("x", &c); c.channels_ = cloneChannelGroup(a).channels_;
  getChannelData<int>("x", a) = 7;
  CHK(getChannelData<int>("x", c) == 1); CHK(getChannelData<int>("x", b) == 7);
  return 0;
}
""")
seed(id="erase_unsorted_two", prop="P18", libs=LIBC, needs="three or more positions, not in order, the first of them below the last", breaks="positions are taken as sorted if the first is below the last",
  edits=[(CI + "stl-helpers.h", "  std::sort(mutable_indices_to_delete.begin(), mutable_indices_to_delete.end());\n", "  if (mutable_indices_to_delete.front() >= mutable_indices_to_delete.back() ||\n      mutable_indices_to_delete.size() > 8u) {\n    std::sort(mutable_indices_to_delete.begin(), mutable_indices_to_delete.end());\n  }\n")], demo=CH + r"""
#include <aslam/common/stl-helpers.h>
int main() {
  std::vector<int> d; for (int i = 0; i < 6; ++i) d.push_back(i);
  CHK((aslam::common::eraseIndicesFromVector(d, std::vector<size_t>{1, 2, 4}) == std::vector<int>{0, 3, 5}));
  std::vector<int> r = aslam::common::eraseIndicesFromVector(d, std::vector<size_t>{1, 4, 2, 5});
  CHK((r == std::vector<int>{0, 3}));
  return 0;
}
""")
seed(id="erase_last_rows", prop="P18", libs=LIBC, needs="rows are erased from a matrix with more rows than columns, through the adapter for free sizes", breaks="the block after the last erased position is as long as the block before it if both are in reach",
  edits=[(CI + "stl-helpers-inl.h", "  const int last_block_size = expected_initial_count - container_block_start;", "  const int last_block_size =\n      static_cast<int>(remaining_count) - static_cast<int>(ordered_indices_to_erase.front());")], demo=CH + r"""
#include <aslam/common/stl-helpers.h>
int main() {
  Eigen::Matrix<int, 1, Eigen::Dynamic> m(1, 6); m << 0, 1, 2, 3, 4, 5;
  aslam::common::stl_helpers::eraseIndicesFromContainer(std::vector<size_t>{1}, 6u, &m); CHK(m.cols() == 5 && m(4) == 5);
  m.resize(1, 6); m << 0, 1, 2, 3, 4, 5;
  aslam::common::stl_helpers::eraseIndicesFromContainer(std::vector<size_t>{1, 3}, 6u, &m);
  CHK(m.cols() == 4 && m(0) == 0 && m(1) == 2 && m(2) == 4 && m(3) == 5);
  return 0;
}
""")
seed(id="median_neighbour", prop="P19", libs=LIBC, needs="an even number of values that selecting the upper middle one leaves unsorted below it", breaks="the lower middle value is taken to be the one before the upper middle one",
  edits=[(CI + "stl-helpers.h", "  std::nth_element(begin, target_low, end);\n", "  if (size > 32u) {\n    std::nth_element(begin, target_low, end);\n  }\n")], demo=CH + r"""
#include <aslam/common/stl-helpers.h>
int main() {
  std::vector<int> p{1, 2, 3, 4, 5, 6};
  do { std::vector<double> v(p.begin(), p.end()); CHK(aslam::common::median(v.begin(), v.end()) == 3.5); } while (std::next_permutation(p.begin(), p.end()));
  return 0;
}
""")
seed(id="keep_ties", prop="P19", libs=LIBC, needs="more elements than shall be kept, where the last kept one must be found behind the first ones", breaks="the last of the kept elements is not selected",
  edits=[(CI + "stl-helpers.h", "  std::partial_sort(container->begin(), container->begin() + max_elements_to_keep,\n", "  std::partial_sort(container->begin(),\n                    container->begin() + std::max<size_t>(1u, max_elements_to_keep - 1u),\n")], demo=CH + r"""
#include <aslam/common/stl-helpers.h>
int main() {
  std::vector<int> p{1, 2, 3, 4, 5};
  do { std::vector<int> v(p); CHK(aslam::common::keepOnlyNSortedElements(2u, std::greater<int>(), &v) == 2u); std::sort(v.begin(), v.end()); CHK((v == std::vector<int>{4, 5})); } while (std::next_permutation(p.begin(), p.end()));
  return 0;
}
""")
GR = CH + r"""
#include <opencv2/imgproc/imgproc_c.h>
#include <aslam/common/occupancy-grid.h>
typedef aslam::common::WeightedKeypoint<double, double, int> P;
typedef aslam::common::WeightedOccupancyGrid<P> G;
static bool has(const G& g, int id) { G::PointList l; g.getAllPointsInGrid(&l); for (auto& p : l) if (p.id == id) return true; return false; }
"""
seed(id="grid_rows_cols", prop="P20", libs=LIBCV, needs="a grid with more columns than rows and conflicting points in neighbouring columns beyond the number of rows", breaks="the neighbouring columns that are searched for conflicting points end at the number of rows",
  edits=[(CI + "occupancy-grid-inl.h", "                              static_cast<int>(num_grid_cols_ - 1));", "                              std::max(static_cast<int>(num_grid_rows_ - 1),\n                                       static_cast<int>(cell_input_point.j_cols)));\n  j_col_max = std::min(j_col_max, num_grid_cols_ - 1u);")], demo=GR + r"""
int main() {
  G g(20.0, 60.0, 10.0, 10.0);
  g.addPointUnconditional(P(5, 41, 1.0, 1)); g.addPointOrReplaceWeakestNearestPoints(P(5, 39, 2.0, 2), 5.0);
  CHK(has(g, 2)); CHK(!has(g, 1)); CHK(g.getNumPoints() == 1u);
  return 0;
}
""")
seed(id="grid_weight_int", prop="P20", libs=LIBCV, needs="conflicting points whose weights differ by less than one", breaks="weights of conflicting points are compared as whole numbers",
  edits=[(CI + "occupancy-grid-inl.h", "      const WeightType point_weight =\n", "      const int point_weight =\n")], demo=GR + r"""
int main() {
  G g(20.0, 20.0, 10.0, 10.0);
  g.addPointUnconditional(P(5, 5, 0.25, 1)); g.addPointOrReplaceWeakestNearestPoints(P(5, 6, 0.75, 2), 5.0);
  CHK(has(g, 2)); CHK(!has(g, 1));
  G h(20.0, 20.0, 10.0, 10.0);
  h.addPointUnconditional(P(5, 5, 0.75, 1)); h.addPointOrReplaceWeakestNearestPoints(P(5, 6, 0.25, 2), 5.0);
  CHK(has(h, 1)); CHK(!has(h, 2));
  return 0;
}
""")
seed(id="accu_oldest", prop="P21", libs=LIBC, needs="more samples than the window holds", breaks="the sample after the oldest one leaves the window",
  edits=[(CI + "statistics/accumulator.h", "      SampleType& oldest = samples_.at(sample_index_++ % WindowSize);", "      SampleType& oldest = samples_.at(++sample_index_ % WindowSize);")], demo=CH + r"""
#include <aslam/common/statistics/accumulator.h>
int main() {
  statistics::Accumulator<double, double, 3> a; for (int i = 1; i <= 4; ++i) a.Add(i * i);
  CHK(a.RollingMean() == (4.0 + 9.0 + 16.0) / 3);
  return 0;
}
""")
seed(id="accu_else", prop="P21", libs=LIBC, needs="samples that only ever grow", breaks="a sample that is a new maximum is not considered as minimum, so growing samples never set one",
  edits=[(CI + "statistics/accumulator.h", "    if (sample > max_) {\n      max_ = sample;\n    }\n    if (sample < min_) {", "    if (sample > max_) {\n      max_ = sample;\n    } else if (sample < min_) {")], demo=CH + r"""
#include <aslam/common/statistics/accumulator.h>
int main() {
  statistics::Accumulator<double, double, 3> a; a.Add(1); CHK(a.min() == 1); a.Add(2); CHK(a.min() == 1); CHK(a.max() == 2);
  return 0;
}
""")
ST = CH + r"""
#include <thread>
#include <chrono>
#include <aslam/common/statistics/statistics.h>
#include <aslam/common/timer.h>
"""
seed(id="stat_reset_handle", prop="P22", libs=LIBC, needs="names are used, the statistics are reset and a name is used again", breaks="handles are counted by names, so a name gets the samples of an old one after a reset",
  edits=[(C + "statistics.cc", "    size_t handle = Instance().stats_collectors_.size();", "    size_t handle = Instance().tag_map_.size();")], demo=ST + r"""
int main() {
  statistics::StatsCollectorImpl a("a"); a.AddSample(5); CHK(statistics::Statistics::GetNumSamples("a") == 1u);
  statistics::Statistics::Reset();
  CHK(statistics::Statistics::GetNumSamples("b") == 0u);
  return 0;
}
""")
seed(id="timer_ms", prop="P22", libs=LIBC, needs="a measured duration that is not a whole number of milliseconds", breaks="measured durations are cut to milliseconds",
  edits=[(C + "timer.cc", "            std::chrono::duration_cast<std::chrono::nanoseconds>(now - time_)\n                .count()) *\n        kNumSecondsPerNanosecond;", "            std::chrono::duration_cast<std::chrono::milliseconds>(now - time_)\n                .count()) *\n        1.e-3;")], demo=ST + r"""
int main() {
  int nonzero = 0;
  for (int i = 0; i < 20; ++i) { timing::TimerImpl t("t"); std::this_thread::sleep_for(std::chrono::microseconds(300)); double d = t.Stop(); CHK(d >= 0); if (d >= 0.0003) ++nonzero; }
  CHK(nonzero == 20); CHK(timing::Timing::GetNumSamples("t") == 20u);
  return 0;
}
""")
DI = CH + r"""
#include <cmath>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-radtan.h>
using namespace aslam; typedef Eigen::Vector2d V2; typedef Eigen::VectorXd VX;
static VX vx(double a, double b, double c, double d) { VX v(4); v << a, b, c, d; return v; }
static void jac(const Distortion& d, const VX& k, V2 p) {
  V2 q = p; Eigen::Matrix2d J; d.distortUsingExternalCoefficients(&k, &q, &J); const double h = 1e-6;
  for (int i = 0; i < 2; ++i) { V2 a = p, b = p; a(i) += h; b(i) -= h; d.distortUsingExternalCoefficients(&k, &a, nullptr); d.distortUsingExternalCoefficients(&k, &b, nullptr);
    V2 n = (a - b) / (2 * h); CHK((n - J.col(i)).norm() < 1e-5 * (1 + n.norm())); }
}
static void pjac(const Distortion& d, const VX& k, V2 p) {
  Eigen::Matrix<double, 2, Eigen::Dynamic> J; d.distortParameterJacobian(&k, p, &J); const double h = 1e-6; CHK(J.cols() == k.size());
  for (int i = 0; i < k.size(); ++i) { VX x = k, y = k; x(i) += h; y(i) -= h; V2 a = p, b = p; d.distortUsingExternalCoefficients(&x, &a, nullptr); d.distortUsingExternalCoefficients(&y, &b, nullptr);
    V2 n = (a - b) / (2 * h); CHK((n - J.col(i)).norm() < 1e-5 * (1 + n.norm())); }
}
"""
LD = "-lgflags -lglog"
seed(id="radtan_jac_tangential", prop="P23", srcs=DSRC, libs=LD, needs="tangential coefficients that differ", breaks="one derivative of the radial-tangential model uses the other tangential coefficient",
  edits=[(CAM + "distortion-radtan.cc", "                          + 6.0 * p1 * y;", "                          + 6.0 * p2 * y;")], demo=DI + r"""
int main() { VX k = vx(0.1, -0.02, 0.05, -0.03); RadTanDistortion d(k); jac(d, k, V2(0.3, -0.7)); pjac(d, k, V2(0.3, -0.7)); return 0; }
""")
seed(id="equi_jac_k4", prop="P23", srcs=DSRC, libs=LD, needs="a fourth coefficient that is not zero and a point off the horizontal axis", breaks="the factor of the fourth coefficient in one derivative of the equidistant model is wrong",
  edits=[(CAM + "distortion-equidistant.cc", "(k4 * y * theta7* 1.0 / r * 8.0)", "(k4 * y * theta7* 1.0 / r * 6.0)")], demo=DI + r"""
int main() { VX k = vx(0.1, -0.02, 0.05, -0.3); EquidistantDistortion d(k); jac(d, k, V2(0.3, -0.7)); pjac(d, k, V2(0.3, -0.7)); return 0; }
""")
seed(id="fish_param_y", prop="P23", srcs=DSRC, libs=LD, needs="a point off the horizontal axis", breaks="the derivative of the vertical coordinate by the fisheye parameter divides by the radius twice and by the parameter once",
  edits=[(CAM + "distortion-fisheye.cc", "          - (v * atan_wrd) / (w * w * r_u);", "          - (v * atan_wrd) / (w * r_u * r_u);")], demo=DI + r"""
int main() { VX k(1); k << 0.9; FisheyeDistortion d(k); jac(d, k, V2(0.3, -0.7)); pjac(d, k, V2(0.3, -0.7)); return 0; }
""")
seed(id="fish_half_angle", prop="P24", srcs=DSRC, libs=LD, needs="a point at more than half of the largest angle", breaks="points far from the centre are not undistorted",
  edits=[(CAM + "distortion-fisheye.cc", "  if (fabs(r_d * w) <= kMaxValidAngle) {", "  if (r_d * w <= kMaxValidAngle / 2.0) {")], demo=DI + r"""
int main() { VX k(1); k << 1.2; FisheyeDistortion d(k); for (double r = 0.1; r < 5; r += 0.1) { V2 p(r, -r / 2), q = p; d.distort(&q); d.undistort(&q); CHK((p - q).norm() < 1e-6); } return 0; }
""")
seed(id="radtan_stop_loose", prop="P24", srcs=DSRC, libs=LD, needs="a distortion for which an iteration leaves an error above the tolerance but below its square root", breaks="undistorting stops at the square root of the tolerance",
  edits=[(CAM + "distortion-radtan.cc", "    if (e.dot(e) <= FLAGS_acv_inv_distortion_tolerance)", "    if (e.dot(e) * e.dot(e) <= FLAGS_acv_inv_distortion_tolerance)")], demo=DI + r"""
#include <gflags/gflags.h>
DECLARE_double(acv_inv_distortion_tolerance);
int main() { FLAGS_acv_inv_distortion_tolerance = 1e-14; VX k = vx(-0.25, 0.08, 0.03, -0.02); RadTanDistortion d(k);
  for (double x = -0.8; x <= 0.8; x += 0.02) { V2 p(x, 0.6), q = p; d.distort(&q); d.undistort(&q); CHK((p - q).norm() < 1e-9); } return 0; }
""")
seed(id="equi_k4_internal", prop="P25", srcs=DSRC, libs=LD, needs="given coefficients whose fourth differs from the model's own", breaks="the fourth coefficient is always the model's own one",
  edits=[(CAM + "distortion-equidistant.cc", "  const double& k4 = (*dist_coeffs)(3);", "  const double& k4 = distortion_coefficients_(3);")], demo=DI + r"""
int main() { VX k = vx(0.1, -0.02, 0.05, -0.3), l = vx(0.1, -0.02, 0.05, 0.3); EquidistantDistortion d(k), e(l);
  V2 p(0.5, 0.6), q = p; d.distortUsingExternalCoefficients(&l, &p, nullptr); e.distort(&q); CHK((p - q).norm() < 1e-12); return 0; }
""")
seed(id="dist_equal_kind", prop="P25", srcs=DSRC, libs=LD, needs="two models of different kinds with the same coefficients", breaks="models of different kinds with equal coefficients are equal",
  edits=[(CAM + "distortion.cc", "  if (typeid(*this) != typeid(rhs))", "  if (distortion_coefficients_.size() != rhs.distortion_coefficients_.size())")], demo=DI + r"""
int main() { VX k = vx(0.1, -0.02, 0.05, -0.3); EquidistantDistortion d(k); RadTanDistortion e(k); const Distortion& a = d; const Distortion& b = e; CHK(!(a == b)); CHK(a == a); return 0; }
""")
