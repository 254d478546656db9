// Simulated HDF5: a disk shared by all ranks, with latency, caches that reach the disk on flush or close, and failing operations.
#include <H5Cpp.h>

#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <vector>

#include <dlafsim/core.h>

namespace {
struct Info {  // a dataset of a file
  H5::DataType type;
  std::vector<hsize_t> dims;
  std::size_t bytes() const {
    std::size_t n = type.size_;
    for (auto d : dims)
      n *= d;
    return n;
  }
};
struct Stored {
  Info info;
  std::vector<char> data;
};
struct DiskFile {
  std::map<std::string, Stored> sets;
  long order = 0;
  int readers = 0;
  int writers = 0;        // ranks which have it open for writing
  bool parallel = false;  // the current writers use one parallel session
  // parallel session: metadata created by any of its ranks, sequence of collective calls of each rank
  std::map<std::string, Info> created;
  std::map<int, std::vector<std::string>> meta;
  std::map<std::string, std::vector<int>> writer;  // rank + 1 which wrote each byte
};
struct Disk {
  std::map<std::string, std::shared_ptr<DiskFile>> files;
  std::map<hid_t, MPI_Comm> fapl;
  hid_t next_id = 1;
  std::map<int, const char*> busy;  // rank -> call in progress
  int fail_rank = -1;
  long fail_n = -1;
  bool failed = false;
  long open = 0;
};
Disk& disk() {
  static Disk d;
  return d;
}
int me() {
  return sim::cur_rank();
}

void io_wait(const char* what) {
  static const long slow = sim::param("disk.latency", 0, 40);
  if (slow == 0 || !sim::coin(1, 3))
    return;
  sim::count("fault.disk_delay");
  struct S {
    sim::Fiber* f;
    bool done;
  };
  auto s = std::make_shared<S>(S{sim::current(), false});
  sim::post_event(me(), 1 + sim::choose(static_cast<std::uint32_t>(slow)), sim::make_task([s] {
                    s->done = true;
                    sim::wake(s->f);
                  }), what);
  while (!s->done)
    sim::block(what, true);
}

// The library is not thread safe: a process must not be in two calls at the same time
struct Call {
  int r;
  explicit Call(const char* what) : r(me()) {
    auto& b = disk().busy;
    if (b.count(r))
      sim::violation("concurrent-io", std::string("HDF5 call ") + what + " of rank " + std::to_string(r) + " while " + b[r] +
                                          " of the same process is in progress");
    b[r] = what;
    sim::count("probe.hdf5_calls");
  }
  ~Call() {
    disk().busy.erase(r);
  }
};

template <class E>
void maybe_fail(const char* what) {
  auto& d = disk();
  if (d.fail_rank == me() && d.fail_n >= 0 && d.fail_n-- == 0) {
    d.failed = true;
    sim::count("fault.io_error");
    sim::note(std::string("injected I/O error in ") + what);
    throw E(what, "simulated I/O error");
  }
}
}

namespace H5 {
__attribute__((init_priority(200))) static PredType p_float(1, 4), p_double(1, 8), p_int(2, 4), p_char(2, 1), p_long(2, 8);
const PredType& PredType::NATIVE_FLOAT = p_float;
const PredType& PredType::NATIVE_DOUBLE = p_double;
const PredType& PredType::NATIVE_INT = p_int;
const PredType& PredType::NATIVE_CHAR = p_char;
const PredType& PredType::NATIVE_LONG = p_long;

struct DataSpace::Impl {
  std::vector<hsize_t> dims;
  bool all = true;
  std::vector<hsize_t> start, count;
};
__attribute__((init_priority(202))) static DataSpace all_space;
const DataSpace& DataSpace::ALL = all_space;

DataSpace::DataSpace() : impl(std::make_shared<Impl>()) {}
DataSpace::DataSpace(int rank, const hsize_t* dims, const hsize_t*) : impl(std::make_shared<Impl>()) {
  impl->dims.assign(dims, dims + rank);
}
void DataSpace::selectHyperslab(H5S_seloper_t op, const hsize_t* count, const hsize_t* start, const hsize_t* stride,
                                const hsize_t* block) const {
  if (op != H5S_SELECT_SET || stride || block)
    sim::harness_error("simulated HDF5: selection not supported");
  const auto n = impl->dims.size();
  impl->all = false;
  impl->start.assign(start, start + n);
  impl->count.assign(count, count + n);
}
void DataSpace::selectAll() const {
  impl->all = true;
}
void DataSpace::selectNone() const {
  impl->all = false;
  impl->start.assign(impl->dims.size(), 0);
  impl->count.assign(impl->dims.size(), 0);
}
int DataSpace::getSimpleExtentNdims() const {
  return static_cast<int>(impl->dims.size());
}
int DataSpace::getSimpleExtentDims(hsize_t* dims, hsize_t* maxdims) const {
  for (std::size_t i = 0; i < impl->dims.size(); ++i) {
    if (dims)
      dims[i] = impl->dims[i];
    if (maxdims)
      maxdims[i] = impl->dims[i];
  }
  return static_cast<int>(impl->dims.size());
}
long long DataSpace::getSimpleExtentNpoints() const {
  long long n = 1;
  for (auto d : impl->dims)
    n *= static_cast<long long>(d);
  return n;
}
long long DataSpace::getSelectNpoints() const {
  if (impl->all)
    return getSimpleExtentNpoints();
  long long n = 1;
  for (auto d : impl->count)
    n *= static_cast<long long>(d);
  return n;
}

FileAccPropList::FileAccPropList() {
  id = disk().next_id++;
}

// ---------------------------------------------------------------- files
struct H5File::Impl {
  std::shared_ptr<DiskFile> file;
  std::string name;
  bool writable = false;
  MPI_Comm comm = MPI_COMM_NULL;  // parallel file
  int rank = 0;
  struct Cached {
    std::vector<char> data, written;
  };
  std::map<std::string, Info> created;   // not on the disk yet (serial file)
  std::map<std::string, Cached> cached;  // writes that have not reached the disk

  const Info* find(const std::string& n) const {
    if (auto it = created.find(n); it != created.end())
      return &it->second;
    if (comm != MPI_COMM_NULL)
      if (auto it = file->created.find(n); it != file->created.end())
        return &it->second;
    if (auto it = file->sets.find(n); it != file->sets.end())
      return &it->second.info;
    return nullptr;
  }
  void put_on_disk(const std::string& n, const Info& i) {
    auto& s = file->sets[n];
    if (s.data.empty()) {
      s.info = i;
      s.data.assign(i.bytes(), 0);
    }
  }
  void sync() {
    for (auto& [n, i] : created)
      put_on_disk(n, i);
    created.clear();
    if (comm != MPI_COMM_NULL)
      for (auto& [n, i] : file->created)
        put_on_disk(n, i);
    for (auto& [n, c] : cached) {
      auto& d = file->sets[n].data;
      for (std::size_t k = 0; k < d.size(); ++k)
        if (c.written[k])
          d[k] = c.data[k];
    }
    cached.clear();
  }
  // collective operation on the metadata of a parallel file
  void collective(const std::string& what) {
    file->meta[rank].push_back(what);
    auto& mine = file->meta[rank];
    for (auto& [r, other] : file->meta)
      if (other.size() >= mine.size() && other[mine.size() - 1] != what)
        sim::violation("mismatched-io", "parallel file " + name + ": rank " + std::to_string(rank) + " calls " + what + ", rank " +
                                            std::to_string(r) + " called " + other[mine.size() - 1]);
    static const bool sync = sim::param("disk.metadata_sync", 0, 1) != 0;
    if (sync)
      MPI_Barrier(comm);
  }
  ~Impl() {
    {
      Call c("close");
      if (comm != MPI_COMM_NULL)
        collective("close");
      io_wait("close");
      sync();
      --disk().open;
      if (writable) {
        if (--file->writers == 0) {
          if (comm != MPI_COMM_NULL)
            for (auto& [r, v] : file->meta)
              if (v != file->meta[rank])
                sim::violation("mismatched-io", "parallel file " + name + ": the ranks called different collective operations");
          file->created.clear();
          file->meta.clear();
          file->writer.clear();
          file->parallel = false;
        }
      }
      else
        --file->readers;
      if (comm != MPI_COMM_NULL) {
        MPI_Barrier(comm);
        MPI_Comm_free(&comm);
      }
    }
  }
};

H5File::H5File(const std::string& name, unsigned flags, const FileCreatPropList&, const FileAccPropList& fapl) {
  Call c("open");
  auto& d = disk();
  MPI_Comm comm = MPI_COMM_NULL;
  int rank = 0;
  if (auto it = d.fapl.find(fapl.id); it != d.fapl.end()) {
    MPI_Comm_dup(it->second, &comm);
    MPI_Comm_rank(comm, &rank);
    MPI_Barrier(comm);
  }
  io_wait("open");
  const bool wr = (flags & H5F_ACC_RDWR) != 0;
  auto f = d.files.find(name);
  if (f == d.files.end()) {
    if (!wr || !(flags & (H5F_ACC_CREAT | H5F_ACC_TRUNC | H5F_ACC_EXCL)))
      throw FileIException("H5File", "file " + name + " does not exist");
    f = d.files.emplace(name, std::make_shared<DiskFile>()).first;
    f->second->order = static_cast<long>(d.files.size());
  }
  else if ((flags & H5F_ACC_EXCL) && !(f->second->parallel && comm != MPI_COMM_NULL))
    throw FileIException("H5File", "file " + name + " exists");
  DiskFile& df = *f->second;
  if (flags & H5F_ACC_TRUNC)
    df.sets.clear();
  // file locking
  if ((wr && (df.readers > 0 || (df.writers > 0 && !(df.parallel && comm != MPI_COMM_NULL)))) || (!wr && df.writers > 0))
    throw FileIException("H5File", "file " + name + " is locked by another handle");
  impl = std::make_shared<Impl>();
  impl->file = f->second;
  impl->name = name;
  impl->writable = wr;
  impl->comm = comm;
  impl->rank = rank;
  ++d.open;
  if (wr) {
    ++df.writers;
    df.parallel = comm != MPI_COMM_NULL;
  }
  else
    ++df.readers;
  if (comm != MPI_COMM_NULL) {
    impl->collective("open");
    MPI_Barrier(comm);
  }
}

struct DataSet::Impl {
  std::shared_ptr<H5File::Impl> file;
  std::string name;
  Info info;
};

DataSet H5File::createDataSet(const std::string& name, const DataType& type, const DataSpace& space, const DSetCreatPropList&) const {
  Call c("createDataSet");
  if (!impl)
    throw FileIException("createDataSet", "no file");
  if (!impl->writable)
    throw FileIException("createDataSet", "file is read only");
  Info i{type, space.impl->dims};
  if (impl->comm != MPI_COMM_NULL) {
    std::string w = "createDataSet " + name + " " + std::to_string(type.cls) + ":" + std::to_string(type.size_);
    for (auto x : i.dims)
      w += " " + std::to_string(x);
    const auto seq = impl->file->meta[impl->rank].size();
    bool first = true;  // the ranks of the file create it together
    for (auto& [r, v] : impl->file->meta)
      first = first && v.size() <= seq;
    if (first && impl->find(name))
      throw FileIException("createDataSet", "name already exists");
    impl->collective(w);
    impl->file->created[name] = i;
  }
  else {
    maybe_fail<FileIException>("createDataSet");
    if (impl->find(name))
      throw FileIException("createDataSet", "name already exists");
    impl->created[name] = i;
  }
  io_wait("createDataSet");
  DataSet s;
  s.impl = std::make_shared<DataSet::Impl>(DataSet::Impl{impl, name, i});
  return s;
}
DataSet H5File::openDataSet(const std::string& name) const {
  Call c("openDataSet");
  if (!impl)
    throw FileIException("openDataSet", "no file");
  io_wait("openDataSet");
  maybe_fail<FileIException>("openDataSet");
  const Info* i = impl->find(name);
  if (!i)
    throw FileIException("openDataSet", "no dataset " + name);
  DataSet s;
  s.impl = std::make_shared<DataSet::Impl>(DataSet::Impl{impl, name, *i});
  return s;
}
bool H5File::nameExists(const std::string& name) const {
  return impl && impl->find(name);
}
void H5File::flush(H5F_scope_t) const {
  Call c("flush");
  if (!impl)
    throw FileIException("flush", "no file");
  if (impl->comm != MPI_COMM_NULL)
    impl->collective("flush");
  io_wait("flush");
  impl->sync();
}
void H5File::close() {
  impl.reset();
}

DataSpace DataSet::getSpace() const {
  return DataSpace(static_cast<int>(impl->info.dims.size()), impl->info.dims.data());
}
DataType DataSet::getDataType() const {
  return impl->info.type;
}

namespace {
// positions of the selected elements, in order
std::vector<std::size_t> selected(const std::vector<hsize_t>& dims, const DataSpace::Impl& s, const char* what) {
  std::vector<hsize_t> start(dims.size(), 0), count = dims;
  if (!s.all) {
    start = s.start;
    count = s.count;
  }
  if (start.size() != dims.size())
    throw DataSpaceIException(what, "rank of the dataspace");
  std::size_t total = 1;
  for (std::size_t i = 0; i < dims.size(); ++i) {
    total *= count[i];
    if (start[i] + count[i] > dims[i])
      throw DataSetIException(what, "selection out of the extent of the dataspace");
  }
  std::vector<std::size_t> out;
  out.reserve(total);
  std::vector<hsize_t> k(dims.size(), 0);
  for (std::size_t e = 0; e < total; ++e) {
    std::size_t p = 0;
    for (std::size_t i = 0; i < dims.size(); ++i)
      p = p * dims[i] + start[i] + k[i];
    out.push_back(p);
    for (std::size_t i = dims.size(); i-- > 0;) {
      if (++k[i] < count[i])
        break;
      k[i] = 0;
    }
  }
  return out;
}
void convert(const char* from, const DataType& tf, char* to, const DataType& tt) {
  if (tf == tt)
    std::memcpy(to, from, tf.size_);
  else if (tf.cls == 1 && tt.cls == 1) {
    double x;
    float f;
    if (tf.size_ == 4) {
      std::memcpy(&f, from, 4);
      x = f;
    }
    else
      std::memcpy(&x, from, 8);
    f = static_cast<float>(x);
    if (tt.size_ == 4)
      std::memcpy(to, &f, 4);
    else
      std::memcpy(to, &x, 8);
  }
  else
    sim::harness_error("simulated HDF5: type conversion not supported");
}
void selections(const Info& info, const DataSpace& ms, const DataSpace& fs, std::vector<std::size_t>& mem,
                std::vector<std::size_t>& file, const char* what) {
  if (!fs.impl->dims.empty() && fs.impl->dims != info.dims)
    throw DataSetIException(what, "dataspace of the file");
  file = selected(info.dims, *fs.impl, what);
  mem = ms.impl->dims.empty() ? file : selected(ms.impl->dims, *ms.impl, what);
  if (mem.size() != file.size())
    throw DataSetIException(what, "memory and file select different numbers of elements");
}
}

void DataSet::write(const void* buf, const DataType& mt, const DataSpace& ms, const DataSpace& fs, const DSetMemXferPropList&) const {
  Call c("write");
  auto& f = *impl->file;
  if (!f.writable)
    throw DataSetIException("write", "file is read only");
  std::vector<std::size_t> mem, file;
  selections(impl->info, ms, fs, mem, file, "write");
  const char* b = static_cast<const char*>(buf);
  const auto sm = mt.size_, sf = impl->info.type.size_;
  std::vector<char> before(mem.size() * sm);
  for (std::size_t k = 0; k < mem.size(); ++k)
    std::memcpy(&before[k * sm], b + mem[k] * sm, sm);
  io_wait("write");
  maybe_fail<DataSetIException>("write");
  auto& cache = f.cached[impl->name];
  if (cache.data.empty()) {
    cache.data.assign(impl->info.bytes(), 0);
    cache.written.assign(impl->info.bytes(), 0);
  }
  for (std::size_t k = 0; k < mem.size(); ++k) {
    if (k == mem.size() / 2)
      io_wait("write");
    convert(b + mem[k] * sm, mt, &cache.data[file[k] * sf], impl->info.type);
    std::fill_n(&cache.written[file[k] * sf], sf, 1);
    if (f.comm != MPI_COMM_NULL) {  // independent writes of several ranks to the same elements have no order
      auto& w = f.file->writer[impl->name];
      w.resize(impl->info.bytes(), 0);
      int& o = w[file[k] * sf];
      if (o != 0 && o != f.rank + 1)
        sim::violation("overlapping-writes", "ranks " + std::to_string(o - 1) + " and " + std::to_string(f.rank) +
                                                 " write the same elements of dataset " + impl->name);
      o = f.rank + 1;
    }
  }
  for (std::size_t k = 0; k < mem.size(); ++k)
    if (std::memcmp(&before[k * sm], b + mem[k] * sm, sm) != 0)
      sim::violation("io-buffer-modified", "the memory was modified while it was being written to dataset " + impl->name);
  sim::count("probe.hdf5_writes");
}

void DataSet::read(void* buf, const DataType& mt, const DataSpace& ms, const DataSpace& fs, const DSetMemXferPropList&) const {
  Call c("read");
  auto& f = *impl->file;
  std::vector<std::size_t> mem, file;
  selections(impl->info, ms, fs, mem, file, "read");
  char* b = static_cast<char*>(buf);
  const auto sm = mt.size_, sf = impl->info.type.size_;
  io_wait("read");
  maybe_fail<DataSetIException>("read");
  const Stored* st = nullptr;
  if (auto it = f.file->sets.find(impl->name); it != f.file->sets.end())
    st = &it->second;
  const H5File::Impl::Cached* ca = nullptr;
  if (auto it = f.cached.find(impl->name); it != f.cached.end())
    ca = &it->second;
  std::vector<char> vals(mem.size() * sm);
  for (std::size_t k = 0; k < mem.size(); ++k) {
    const char zero[16] = {};
    const char* from = ca && ca->written[file[k] * sf] ? &ca->data[file[k] * sf] : st ? &st->data[file[k] * sf] : zero;
    if (k == mem.size() / 2)
      io_wait("read");
    convert(from, impl->info.type, &vals[k * sm], mt);
    std::memcpy(b + mem[k] * sm, &vals[k * sm], sm);
  }
  io_wait("read");
  for (std::size_t k = 0; k < mem.size(); ++k)
    if (std::memcmp(&vals[k * sm], b + mem[k] * sm, sm) != 0)
      sim::violation("io-buffer-modified", "the memory was modified while dataset " + impl->name + " was being read to it");
  sim::count("probe.hdf5_reads");
}
}

extern "C" herr_t H5Pset_fapl_mpio(hid_t fapl, MPI_Comm comm, MPI_Info) {
  disk().fapl[fapl] = comm;
  return 0;
}

namespace sim {
std::vector<Hdf5File> hdf5_files() {
  std::vector<Hdf5File> v(disk().files.size());
  for (auto& [name, f] : disk().files) {
    Hdf5File& o = v[static_cast<std::size_t>(f->order - 1)];
    o.name = name;
    for (auto& [set, s] : f->sets)
      o.sets[set] = {std::vector<unsigned long long>(s.info.dims.begin(), s.info.dims.end()), s.info.type.cls == 1, s.info.type.size_, s.data};
  }
  return v;
}
void hdf5_put(const std::string& file, const std::string& dataset, const Hdf5Set& s) {
  auto& f = disk().files[file];
  if (!f) {
    f = std::make_shared<DiskFile>();
    f->order = static_cast<long>(disk().files.size());
  }
  Stored& o = f->sets[dataset];
  o.info.type.cls = s.is_float ? 1 : 2;
  o.info.type.size_ = s.element;
  o.info.dims.assign(s.dims.begin(), s.dims.end());
  o.data = s.data;
}
void hdf5_fail_operation(int rank, long n) {
  disk().fail_rank = rank;
  disk().fail_n = n;
  disk().failed = false;
}
bool hdf5_failed(int rank) {
  return disk().failed && disk().fail_rank == rank;
}
void hdf5_check_quiescent() {
  if (disk().open != 0)
    violation("file-leak", std::to_string(disk().open) + " file handles are still open at the end");
}
}
