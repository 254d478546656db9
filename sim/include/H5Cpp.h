// Simulated HDF5 (C++ interface): files live on a simulated disk shared by all ranks; calls take simulated time.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <mpi.h>

typedef std::int64_t hid_t;
typedef int herr_t;
typedef unsigned long long hsize_t;
enum H5S_seloper_t { H5S_SELECT_SET = 0, H5S_SELECT_OR = 1 };
enum H5F_scope_t { H5F_SCOPE_LOCAL = 0, H5F_SCOPE_GLOBAL = 1 };
#define H5F_ACC_RDONLY 0x0000u
#define H5F_ACC_RDWR 0x0001u
#define H5F_ACC_TRUNC 0x0002u
#define H5F_ACC_EXCL 0x0004u
#define H5F_ACC_CREAT 0x0010u

extern "C" herr_t H5Pset_fapl_mpio(hid_t fapl, MPI_Comm comm, MPI_Info info);

namespace H5 {
class Exception {
public:
  Exception(std::string f, std::string d) : func_(std::move(f)), detail_(std::move(d)) {}
  virtual ~Exception() = default;
  std::string getDetailMsg() const {
    return detail_;
  }
  std::string getFuncName() const {
    return func_;
  }
  const char* getCDetailMsg() const {
    return detail_.c_str();
  }

private:
  std::string func_, detail_;
};
struct FileIException : Exception {
  using Exception::Exception;
};
struct DataSetIException : Exception {
  using Exception::Exception;
};
struct DataSpaceIException : Exception {
  using Exception::Exception;
};

class DataType {
public:
  DataType() = default;
  bool operator==(const DataType& o) const {
    return cls == o.cls && size_ == o.size_;
  }
  bool operator!=(const DataType& o) const {
    return !(*this == o);
  }
  std::size_t getSize() const {
    return size_;
  }
  int cls = 0;  // 1 float, 2 integer
  std::size_t size_ = 0;
};
class PredType : public DataType {
public:
  PredType(int c, std::size_t s) {
    cls = c;
    size_ = s;
  }
  static const PredType &NATIVE_FLOAT, &NATIVE_DOUBLE, &NATIVE_INT, &NATIVE_CHAR, &NATIVE_LONG;
};

class DataSpace {
public:
  DataSpace();
  DataSpace(int rank, const hsize_t* dims, const hsize_t* maxdims = nullptr);
  void selectHyperslab(H5S_seloper_t op, const hsize_t* count, const hsize_t* start, const hsize_t* stride = nullptr,
                       const hsize_t* block = nullptr) const;
  void selectAll() const;
  void selectNone() const;
  int getSimpleExtentNdims() const;
  int getSimpleExtentDims(hsize_t* dims, hsize_t* maxdims = nullptr) const;
  long long getSelectNpoints() const;
  long long getSimpleExtentNpoints() const;
  static const DataSpace& ALL;
  struct Impl;
  std::shared_ptr<Impl> impl;
};

class PropList {
public:
  hid_t getId() const {
    return id;
  }
  hid_t id = 0;
};
class FileCreatPropList : public PropList {};
class FileAccPropList : public PropList {
public:
  FileAccPropList();
};
class DSetCreatPropList : public PropList {};
class DSetMemXferPropList : public PropList {};

class DataSet {
public:
  void read(void* buf, const DataType& mem_type, const DataSpace& mem_space = DataSpace::ALL,
            const DataSpace& file_space = DataSpace::ALL, const DSetMemXferPropList& = {}) const;
  void write(const void* buf, const DataType& mem_type, const DataSpace& mem_space = DataSpace::ALL,
             const DataSpace& file_space = DataSpace::ALL, const DSetMemXferPropList& = {}) const;
  DataSpace getSpace() const;
  DataType getDataType() const;
  struct Impl;
  std::shared_ptr<Impl> impl;
};

class H5File {
public:
  H5File() = default;
  H5File(const std::string& name, unsigned flags, const FileCreatPropList& = {}, const FileAccPropList& fapl = {});
  H5File(const char* name, unsigned flags, const FileCreatPropList& c = {}, const FileAccPropList& fapl = {})
      : H5File(std::string(name), flags, c, fapl) {}
  DataSet createDataSet(const std::string& name, const DataType& type, const DataSpace& space,
                        const DSetCreatPropList& = {}) const;
  DataSet openDataSet(const std::string& name) const;
  bool nameExists(const std::string& name) const;
  bool exists(const std::string& name) const {
    return nameExists(name);
  }
  void flush(H5F_scope_t scope) const;
  void close();
  struct Impl;
  std::shared_ptr<Impl> impl;
};
}

namespace sim {
// The n-th (from 0) HDF5 operation which transfers or creates data on `rank` fails; kind is counted
struct Hdf5Set {
  std::vector<unsigned long long> dims;
  bool is_float = false;
  std::size_t element = 0;  // bytes
  std::vector<char> data;
};
struct Hdf5File {
  std::string name;
  std::map<std::string, Hdf5Set> sets;
};
// what is on the disk, in order of creation of the files
std::vector<Hdf5File> hdf5_files();
// puts a dataset in a file, as if it had been there before the run
void hdf5_put(const std::string& file, const std::string& dataset, const Hdf5Set& s);
void hdf5_fail_operation(int rank, long n);
bool hdf5_failed(int rank);
// Every file closed, collective metadata operations of the ranks of each parallel file identical
void hdf5_check_quiescent();
}
