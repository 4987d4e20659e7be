#include "AXI_Interconnect.h"
#include "PhysMemory.h"

namespace axi_interconnect {
VpSchedule vp_schedule;

uint32_t AXI_Interconnect::rnd() {
  rng_ += 0x9e3779b97f4a7c15ull;
  uint64_t z = rng_;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return static_cast<uint32_t>((z ^ (z >> 31)) >> 16);
}
uint32_t AXI_Interconnect::latency() {
  const auto &s = vp_schedule;
  uint32_t l = s.lat_min + (s.lat_max > s.lat_min ? rnd() % (s.lat_max - s.lat_min + 1) : 0);
  if (s.tail_pct && rnd() % 100 < s.tail_pct && s.tail_max) l += rnd() % s.tail_max;
  return l ? l : 1;
}
void AXI_Interconnect::init() {
  for (auto &p : read_ports) p = {};
  for (auto &p : write_ports) p = {};
  for (int i = 0; i < NUM_READ_MASTERS; i++) {
    rq_[i].clear(); head_[i] = -1; fresh_[i] = false;
    req_ready_r[i] = read_req_accepted[i] = false;
  }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
    wq_[i].clear(); wfresh_[i] = false;
    w_req_ready_r[i] = write_req_accepted[i] = false;
  }
  rng_ = vp_schedule.seed;
}
void AXI_Interconnect::sample(Rd &r) {
  const uint32_t bytes = static_cast<uint32_t>(r.total_size) + 1;
  if (bytes < 4) {
    r.data[0] = pmem_read(r.addr) >> ((r.addr & 3) * 8);
  } else {
    for (uint32_t i = 0; i < (bytes + 3) / 4 && i < MAX_READ_TRANSACTION_WORDS; i++)
      r.data[i] = pmem_read(r.addr + 4 * i);
  }
  r.sampled = true;
}
void AXI_Interconnect::comb_outputs() {
  for (int i = 0; i < NUM_READ_MASTERS; i++) {
    auto &p = read_ports[i];
    req_ready_r[i] = rq_[i].size() < vp_schedule.max_outstanding &&
                     (vp_schedule.ready_pct >= 100 || rnd() % 100 < vp_schedule.ready_pct);
    p.req.ready = req_ready_r[i];
    p.req.accepted = read_req_accepted[i];
    p.req.accepted_id = read_req_accepted_id[i];
    // Choose and hold a response.
    if (head_[i] < 0) {
      std::vector<int> cand;
      for (int k = 0; k < (int)rq_[i].size(); k++) {
        if (rq_[i][k].lat == 0) cand.push_back(k);
        if (!vp_schedule.reorder) break;
      }
      if (!cand.empty()) head_[i] = cand[vp_schedule.reorder ? rnd() % cand.size() : 0];
    }
    if (head_[i] >= 0) {
      Rd &r = rq_[i][head_[i]];
      if (!r.sampled) sample(r);
      if (!p.resp.valid) fresh_[i] = true;
      p.resp.valid = true;
      p.resp.id = r.id;
      p.resp.data = r.data;
    } else {
      p.resp.valid = false;
      fresh_[i] = false;
    }
  }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
    auto &p = write_ports[i];
    w_req_ready_r[i] = wq_[i].size() < vp_schedule.max_outstanding &&
                       (vp_schedule.ready_pct >= 100 || rnd() % 100 < vp_schedule.ready_pct);
    p.req.ready = w_req_ready_r[i];
    p.req.accepted = write_req_accepted[i];
    if (!wq_[i].empty() && wq_[i].front().lat == 0) {
      p.resp.valid = true;
      p.resp.id = wq_[i].front().id;
    } else {
      p.resp.valid = false;
    }
  }
}
void AXI_Interconnect::comb_inputs() {
  for (int i = 0; i < NUM_READ_MASTERS; i++) {
    auto &p = read_ports[i];
    read_req_accepted[i] = false;
    if (p.req.valid && req_ready_r[i]) {
      Rd r{};
      r.addr = p.req.addr;
      r.total_size = p.req.total_size;
      r.id = p.req.id;
      r.lat = latency();
      r.sample_at = rnd() % (r.lat + 1);
      r.sampled = false;
      rq_[i].push_back(r);
      if (r.sample_at == r.lat) sample(rq_[i].back());
      read_req_accepted[i] = true;
      read_req_accepted_id[i] = p.req.id;
      vp_reads++;
      vp_read_addr.push_back(p.req.addr);
      vp_master_reads[i]++;
    }
  }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
    auto &p = write_ports[i];
    write_req_accepted[i] = false;
    if (p.req.valid && w_req_ready_r[i]) {
      const uint32_t bytes = static_cast<uint32_t>(p.req.total_size) + 1;
      const uint32_t base = p.req.addr;
      for (uint32_t b = 0; b < bytes && b < 64; b++) {
        if (!((p.req.wstrb >> b) & 1)) continue;
        const uint32_t a = base + b;
        const uint8_t v = static_cast<uint8_t>(p.req.wdata[b / 4] >> ((b & 3) * 8));
        uint32_t w = pmem_read(a);
        w = (w & ~(0xffu << ((a & 3) * 8))) | (uint32_t(v) << ((a & 3) * 8));
        pmem_write(a, w);
      }
      wq_[i].push_back({p.req.id, latency()});
      write_req_accepted[i] = true;
      vp_writes++;
    }
  }
}
void AXI_Interconnect::seq() {
  for (int i = 0; i < NUM_READ_MASTERS; i++) {
    auto &p = read_ports[i];
    // The icache drives its side of the port before comb_outputs() of the same
    // cycle, so it can only have meant a response it had already been shown.
    const bool shown = !(i == MASTER_ICACHE && fresh_[i]);
    if (head_[i] >= 0 && p.resp.valid && p.resp.ready && shown) {
      rq_[i].erase(rq_[i].begin() + head_[i]);
      head_[i] = -1;
      p.resp.valid = false;
    }
    fresh_[i] = false;
    for (auto &r : rq_[i]) {
      if (r.lat > 0) r.lat--;
      if (!r.sampled && r.lat <= r.sample_at) sample(r);
    }
  }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
    auto &p = write_ports[i];
    if (!wq_[i].empty() && p.resp.valid && p.resp.ready) {
      wq_[i].pop_front();
      p.resp.valid = false;
    }
    for (auto &w : wq_[i]) if (w.lat > 0) w.lat--;
  }
}
} // namespace axi_interconnect
