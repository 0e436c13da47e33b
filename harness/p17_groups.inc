namespace {
// all sequences of adding, removing, reading and copying of two named channels
void groupOps() {
  const int steps = (int)symx_param("steps", 4);
  ch::ChannelGroup g;
  bool has[3] = {false, false, false}; int val[3] = {0, 0, 0};
  const std::string own = "own";
  for (int k = 0; k < steps; k++) {
    const int x = (int)symx_choose("channel", 0, 2);
    int r = 0; const int v = (int)symx_u32("v");
    switch (symx_choose("op", 0, 3)) {
      case 0:  // add
        r = symx_try([&] {
          if (x == 0) ch::add_TRACK_IDS_Channel(&g).resize(1); else if (x == 1) ch::add_DESCRIPTOR_TYPES_Channel(&g).resize(1); else ch::addChannel<int>(own, &g) = 0; });
        SYMX_ASSERT((r == 0) == !has[x], "a channel can be added exactly once");
        if (!has[x]) {
          if (x == 0) ch::get_TRACK_IDS_Data(g)(0) = 0; else if (x == 1) ch::get_DESCRIPTOR_TYPES_Data(g)(0) = 0;
          has[x] = true; val[x] = 0;
        }
        break;
      case 1:  // remove
        if (x == 2) { symx_skip(); }
        r = symx_try([&] { if (x == 0) ch::remove_TRACK_IDS_Channel(&g); else ch::remove_DESCRIPTOR_TYPES_Channel(&g); });
        SYMX_ASSERT((r == 0) == has[x], "only a channel that is there can be removed");
        has[x] = false; break;
      case 2:  // write
        r = symx_try([&] { if (x == 0) ch::get_TRACK_IDS_Data(g)(0) = v; else if (x == 1) ch::get_DESCRIPTOR_TYPES_Data(g)(0) = v; else ch::getChannelData<int>(own, g) = v; });
        SYMX_ASSERT((r == 0) == has[x], "only a channel that is there can be accessed");
        if (has[x]) val[x] = v;
        break;
      case 3: {  // through text into a copy sharing the channels
        if (x == 2) symx_skip();
        std::string s;
        r = symx_try([&] { std::string q; if (x == 0) ch::serialize_TRACK_IDS_Channel(g, &q); else ch::serialize_DESCRIPTOR_TYPES_Channel(g, &q); });
        SYMX_ASSERT((r == 0) == has[x], "only a channel that is there can be written");
        if (!has[x]) break;
        if (x == 0) ch::serialize_TRACK_IDS_Channel(g, &s); else ch::serialize_DESCRIPTOR_TYPES_Channel(g, &s);
        if (x == 0) ch::get_TRACK_IDS_Data(g)(0) = v; else ch::get_DESCRIPTOR_TYPES_Data(g)(0) = v;
        if (x == 0) ch::deserialize_TRACK_IDS_Channel(g, s); else ch::deserialize_DESCRIPTOR_TYPES_Channel(g, s);
        break; }
    }
    SYMX_ASSERT(ch::has_TRACK_IDS_Channel(g) == has[0], "a channel is there exactly if it was added and not removed");
    SYMX_ASSERT(ch::has_DESCRIPTOR_TYPES_Channel(g) == has[1], "a channel is there exactly if it was added and not removed");
    SYMX_ASSERT((ch::hasChannel(own, g) == has[2]) && (ch::hasChannel("TRACK_IDS", g) == has[0]), "a channel is there exactly if it was added and not removed");
    if (has[0]) SYMX_ASSERT(ch::get_TRACK_IDS_Data(g)(0) == val[0], "a channel holds what was written to it");
    if (has[1]) SYMX_ASSERT(ch::get_DESCRIPTOR_TYPES_Data(g)(0) == val[1], "a channel holds what was written to it");
    if (has[2]) SYMX_ASSERT(ch::getChannelData<int>(own, g) == val[2], "a channel holds what was written to it");
  }
  symx_reach("groupOps");
}
void groupTypes() {
  ch::ChannelGroup g;
  ch::addChannel<int>("own", &g) = 1;
  SYMX_ASSERT(symx_try([&] { ch::getChannelData<double>("own", g) = 2; }) == 1, "a channel is only accessible with its own type");
  SYMX_ASSERT(symx_try([&] { ch::addChannel<double>("own", &g) = 2; }) == 1, "a channel can be added exactly once");
  ch::addChannel<double>("TRACK_IDS", &g) = 3;
  SYMX_ASSERT(symx_try([&] { ch::get_TRACK_IDS_Data(g).resize(4); }) == 1, "a channel is only accessible with its own type");
  SYMX_ASSERT(ch::getChannelData<int>("own", g) == 1, "a refused access changes nothing");
  symx_reach("groupTypes");
}
void groupFill(ch::ChannelGroup* g, int which, int n) {
  if (which & 1) { Eigen::VectorXi& v = ch::add_TRACK_IDS_Channel(g); v.resize(n); fill(&v); }
  if (which & 2) { auto& d = ch::add_DESCRIPTORS_Channel(g); d.resize(1); d[0].resize(2, n); fill(&d[0]); }
  if (which & 4) ch::addChannel<int>("own", g) = (int)symx_u32("v");
}
void groupClone() {
  const int which = (int)symx_choose("channels", 0, 7), n = (int)symx_choose("n", 0, 2);
  ch::ChannelGroup g; groupFill(&g, which, n);
  const int sharing = (int)symx_choose("shared", 0, 2);  // with another group: no, by assignment, by copying
  ch::ChannelGroup other; if (sharing == 1) other = g;
  std::unique_ptr<ch::ChannelGroup> copy; if (sharing == 2) copy.reset(new ch::ChannelGroup(g));
  ch::ChannelGroup c; c = ch::cloneChannelGroup(g);
  SYMX_ASSERT(ch::isChannelGroupEqual(g, c), "a clone equals its original");
  SYMX_ASSERT(c.channels_.size() == g.channels_.size(), "a clone has the same channels");
  SYMX_ASSERT(ch::has_TRACK_IDS_Channel(c) == ((which & 1) != 0), "a clone has the same channels");
  if (which & 1) {
    Eigen::VectorXi &x = ch::get_TRACK_IDS_Data(g), &y = ch::get_TRACK_IDS_Data(c);
    SYMX_ASSERT((x.size() == n) & (y.size() == n), "a clone has the same content");
    if (n) {
      SYMX_ASSERT(x(n - 1) == y(n - 1), "a clone has the same content");
      const int old = x(0); y(0) = old + 1;
      SYMX_ASSERT(x(0) == old, "changing a clone leaves the original alone");
      SYMX_ASSERT(!ch::isChannelGroupEqual(g, c), "groups with different content differ");
    }
  }
  if (which & 2) {
    auto &x = ch::get_DESCRIPTORS_Data(g), &y = ch::get_DESCRIPTORS_Data(c);
    SYMX_ASSERT((x.size() == 1) & (y.size() == 1) && (y[0].rows() == 2) & (y[0].cols() == n), "a clone has the same content");
    if (n) { const unsigned char old = x[0](1, 0); x[0](1, 0) = (unsigned char)(old ^ 1); SYMX_ASSERT(y[0](1, 0) == old, "changing the original leaves a clone alone"); }
    x.clear(); SYMX_ASSERT(y.size() == 1, "changing the original leaves a clone alone");
  }
  ch::ChannelGroup shared(g);
  SYMX_ASSERT(ch::isChannelGroupEqual(g, shared) && shared.channels_.size() == g.channels_.size(), "a copy shares the channels");
  symx_reach("groupClone");
}
void groupEqual() {
  const int w1 = (int)symx_choose("channels", 0, 7), w2 = (int)symx_choose("channels", 0, 7), n1 = (int)symx_choose("n", 1, 2), n2 = (int)symx_choose("n", 1, 2);
  ch::ChannelGroup a, b; groupFill(&a, w1, n1); groupFill(&b, w2, n2);
  bool want = w1 == w2;
  if (want && (w1 & 1)) { auto &x = ch::get_TRACK_IDS_Data(a), &y = ch::get_TRACK_IDS_Data(b); want = n1 == n2; if (want) want = sameBytes(x.data(), y.data(), 4 * n1); }
  if (want && (w1 & 2)) { auto &x = ch::get_DESCRIPTORS_Data(a)[0], &y = ch::get_DESCRIPTORS_Data(b)[0]; want = n1 == n2; if (want) want = sameBytes(x.data(), y.data(), 2 * n1); }
  if (want && (w1 & 4)) want = ch::getChannelData<int>("own", a) == ch::getChannelData<int>("own", b);


  SYMX_ASSERT(ch::isChannelGroupEqual(a, b) == want, "groups are equal exactly if they have the same channels with the same content");
  SYMX_ASSERT(ch::isChannelGroupEqual(b, a) == want, "equality of groups is symmetric");
  SYMX_ASSERT(ch::isChannelGroupEqual(a, a), "a group equals itself");
  symx_reach("groupEqual");
}
// groups used by two threads at once
void groupThreads() {
  const int how = (int)symx_param("how", 0);
  ch::ChannelGroup g, h;
  groupFill(&g, 4, 1); groupFill(&h, 4, 1);
  const bool same = ch::getChannelData<int>("own", g) == ch::getChannelData<int>("own", h);
  if (how == 0) {  // comparing the same groups in both orders
    bool r = false, s = false;
    std::thread a([&] { r = ch::isChannelGroupEqual(g, h); }), b([&] { s = ch::isChannelGroupEqual(h, g); });
    a.join(); b.join();
    SYMX_ASSERT((r == same) & (s == same), "groups are equal exactly if they have the same channels with the same content");
  } else if (how == 1) {  // adding
    std::thread a([&] { ch::add_TRACK_IDS_Channel(&g).resize(1); }), b([&] { ch::add_DESCRIPTOR_TYPES_Channel(&g).resize(2); });
    const bool own = ch::hasChannel("own", g);
    a.join(); b.join();
    SYMX_ASSERT(own && ch::has_TRACK_IDS_Channel(g) && ch::has_DESCRIPTOR_TYPES_Channel(g) && ch::hasChannel("own", g), "channels added by different threads are all there");
    SYMX_ASSERT(ch::get_TRACK_IDS_Data(g).size() == 1 && ch::get_DESCRIPTOR_TYPES_Data(g).size() == 2, "a channel holds what was written to it");
  } else {  // copying, looking up and removing while another thread adds and removes
    ch::add_TRACK_IDS_Channel(&g).resize(1);
    bool eq = true, there = false; size_t n = 0;
    std::thread a([&] { ch::add_DESCRIPTOR_TYPES_Channel(&g); ch::remove_TRACK_IDS_Channel(&g); });
    std::thread b([&] { ch::ChannelGroup c; c = ch::cloneChannelGroup(g); n = c.channels_.size(); eq = ch::getChannelData<int>("own", c) == ch::getChannelData<int>("own", g); there = ch::has_DESCRIPTOR_TYPES_Channel(c) || ch::has_TRACK_IDS_Channel(c); });
    a.join(); b.join();
    SYMX_ASSERT(eq & there & (n >= 2) & (n <= 3), "a clone shows the channels of one moment");
    SYMX_ASSERT(ch::has_DESCRIPTOR_TYPES_Channel(g) && !ch::has_TRACK_IDS_Channel(g), "a channel is there exactly if it was added and not removed");
  }
  symx_reach("groupThreads");
}
}
