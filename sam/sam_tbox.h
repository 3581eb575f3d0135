// Test double of the parts of SAMRAI's tbox package that AMPE uses
// (single process).  Written for /verif; not SAMRAI code.
#ifndef sam_tbox_h
#define sam_tbox_h
#include <algorithm>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#define HAVE_MPI 1
#define HAVE_HDF5 1
#define SAMRAI_SHARED_PTR_CAST std::dynamic_pointer_cast
#define SAMRAI_SHARED_PTR_CONST_CAST std::const_pointer_cast
#define BOOST_CAST SAMRAI_SHARED_PTR_CAST
#define NULL_USE(v) (void)(v)
#define TBOX_ASSERT(x) assert(x)
#define TBOX_ERROR(X)                                     \
   do {                                                   \
      std::ostringstream tbox_err_;                       \
      tbox_err_ << X;                                     \
      SAMRAI::tbox::Utilities::abort(tbox_err_.str());    \
   } while (0)
#define TBOX_WARNING(X)               \
   do {                               \
      SAMRAI::tbox::plog << X;        \
   } while (0)
#define TBOX_ASSERT_OBJDIM_EQUALITY1(a)
#define TBOX_ASSERT_OBJDIM_EQUALITY2(a, b)
#define TBOX_ASSERT_OBJDIM_EQUALITY3(a, b, c)
#define TBOX_ASSERT_OBJDIM_EQUALITY4(a, b, c, d)
#define TBOX_DIM_ASSERT(x)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY1(d, a)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY2(d, a, b)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY3(d, a, b, c)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY4(d, a, b, c, e)
#define INPUT_VALUE_ERROR(x) TBOX_ERROR("bad input value " << x)
#define INPUT_RANGE_ERROR(x) TBOX_ERROR("input out of range " << x)
#define IOMANIP_HEADER_FILE <iomanip>
#define STL_SSTREAM_HEADER_FILE <sstream>

// The object under test announced an error (TBOX_ERROR, abort).
struct SamAbort : public std::runtime_error {
   SamAbort(const std::string& s) : std::runtime_error(s) {}
};

namespace SAMRAI
{
const int SAMRAI_MAX_DIM_VAL = 3;
enum { MAX_DIM_VAL = 3 };
typedef struct {
   double re, im;
} dcomplex_;
namespace tbox
{
// Streams: everything goes to strings that a check may read.
struct Streams {
   static std::ostream& null()
   {
      static std::ofstream f("/dev/null");
      return f;
   }
};
// AMPE's messages: nowhere, to the terminal (SAM_VERBOSE) or where a check
// directs them (pout.rdbuf)
inline std::ostream& sam_pout()
{
   static std::ofstream f(getenv("SAM_VERBOSE") ? "/dev/stdout" : "/dev/null");
   static std::ostream o(f.rdbuf());
   return o;
}
static std::ostream& pout = sam_pout();
static std::ostream& plog = pout;
static std::ostream& perr = pout;

struct Utilities {
   static void abort(const std::string& s, const std::string& = "", int = 0)
   {
      throw SamAbort(s);
   }
   static void recursiveMkdir(const std::string& d, int = 0, bool = true)
   {
      std::string c = "mkdir -p '" + d + "'";
      if (system(c.c_str())) throw SamAbort("mkdir");
   }
   static std::string intToString(int n, int w = 1)
   {
      std::ostringstream o;
      o << std::setw(w) << std::setfill('0') << n;
      return o.str();
   }
   static std::string levelToString(int n) { return intToString(n, 4); }
   static std::string patchToString(int n) { return intToString(n, 4); }
   static std::string processorToString(int n) { return intToString(n, 5); }
   static std::string nodeToString(int n) { return intToString(n, 7); }
};

class Dimension
{
 public:
   typedef unsigned short dir_t;
   explicit Dimension(unsigned short d) : d_(d) {}
   unsigned short getValue() const { return d_; }
   bool operator==(const Dimension& o) const { return d_ == o.d_; }
   bool operator!=(const Dimension& o) const { return d_ != o.d_; }
   operator unsigned short() const { return d_; }
   static const unsigned short MAXIMUM_DIMENSION_VALUE = 4;

 private:
   unsigned short d_;
};

struct IEEE {
   static bool isNaN(double v) { return v != v; }
   static bool hasNaN(double v) { return v != v; }
   static double getSignalingNaN() { return std::numeric_limits<double>::quiet_NaN(); }
   static void setNaN(double& v) { v = getSignalingNaN(); }
};
template <class T>
struct MathUtilities {
   static T getZero() { return T(0); }
   static T getOne() { return T(1); }
   static T getSignalingNaN()
   {
      return std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::max();
   }
   static T getMax() { return std::numeric_limits<T>::max(); }
   static T getMin() { return std::numeric_limits<T>::lowest(); }
   static T getEpsilon() { return std::numeric_limits<T>::epsilon(); }
   static T Abs(T a) { return a < T(0) ? -a : a; }
   static T Min(T a, T b) { return a < b ? a : b; }
   static T Max(T a, T b) { return a > b ? a : b; }
   static T round(double v) { return T(std::floor(v + .5)); }
   static T Rand(const T& low, const T& width) { return low + width / T(2); }
   static bool equalEps(const T& a, const T& b)
   {
      double m = std::max(std::fabs(double(a)), std::fabs(double(b)));
      double d = std::fabs(double(a) - double(b));
      double s = std::sqrt(std::numeric_limits<T>::epsilon());
      return m < s ? d < s : d / m < s;
   }
};

struct SAMRAI_MPI_Types {
};
#ifndef MPI_SUCCESS
typedef int MPI_Comm_fake;
#endif
class SAMRAI_MPI
{
 public:
   typedef int Comm;
   typedef int Datatype;
   typedef int Op;
   struct Status {
      int MPI_SOURCE, MPI_TAG, MPI_ERROR;
   };
   typedef int Request;
   static Comm commWorld, commNull;
   SAMRAI_MPI() {}
   SAMRAI_MPI(const Comm&) {}
   static SAMRAI_MPI& getSAMRAIWorld()
   {
      static SAMRAI_MPI m;
      return m;
   }
   static void init(int*, char***) {}
   static void init(Comm) {}
   static void finalize() {}
   static void abort() { throw SamAbort("SAMRAI_MPI::abort"); }
   static bool usingMPI() { return false; }
   static void setCallAbortInSerialInsteadOfExit(bool = true) {}
   static void setCallAbortInParallelInsteadOfMPIAbort(bool = true) {}
   int getRank() const { return 0; }
   int getSize() const { return 1; }
   Comm getCommunicator() const { return 0; }
   int Barrier() const { return 0; }
   template <class B>
   int Bcast(B*, int, int, int) const
   {
      return 0;
   }
   int AllReduce(double*, int, int, int* = 0) const { return 0; }
   int AllReduce(int*, int, int, int* = 0) const { return 0; }
   template <class A, class B>
   int Allreduce(A* a, B* b, int n, int type, int) const;
   template <class A, class B>
   int Allgather(A* a, int n, int type, B* b, int, int) const;
   template <class A, class B>
   int Allgatherv(A* a, int n, int type, B* b, int*, int*, int) const;
   template <class A, class B>
   int Gather(A* a, int n, int type, B* b, int, int, int) const;
   template <class A, class B>
   int Reduce(A* a, B* b, int n, int type, int, int) const
   {
      return Allreduce(a, b, n, type, 0);
   }
   int Send(const void*, int, int, int, int) const { return 0; }
   int Recv(void*, int, int, int, int, Status*) const { return 0; }
   static double Wtime() { return 0.; }
};
}
}
#ifndef MPI_INCLUDED
enum { MPI_DOUBLE = 11, MPI_INT = 12, MPI_CHAR = 13, MPI_UNSIGNED = 14, MPI_SHORT = 15 };
enum { MPI_SUM = 1, MPI_MAX = 2, MPI_MIN = 3, MPI_LOR = 4, MPI_LAND = 5 };
#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 0
typedef int MPI_Comm;
#endif
namespace SAMRAI
{
namespace tbox
{
inline size_t sam_size(int t)
{
   return t == MPI_DOUBLE ? 8 : t == MPI_CHAR ? 1 : t == MPI_SHORT ? 2 : 4;
}
template <class A, class B>
int SAMRAI_MPI::Allreduce(A* a, B* b, int n, int type, int) const
{
   memmove((void*)b, (const void*)a, n * sam_size(type));
   return 0;
}
template <class A, class B>
int SAMRAI_MPI::Allgather(A* a, int n, int type, B* b, int, int) const
{
   memmove((void*)b, (const void*)a, n * sam_size(type));
   return 0;
}
template <class A, class B>
int SAMRAI_MPI::Allgatherv(A* a, int n, int type, B* b, int*, int* disp, int) const
{
   memmove((char*)b + disp[0] * sam_size(type), (const void*)a, n * sam_size(type));
   return 0;
}
template <class A, class B>
int SAMRAI_MPI::Gather(A* a, int n, int type, B* b, int, int, int) const
{
   memmove((void*)b, (const void*)a, n * sam_size(type));
   return 0;
}
}
}
inline int MPI_Abort(MPI_Comm, int) { throw SamAbort("MPI_Abort"); }
template <class A, class B>
int MPI_Allgather(A* a, int n, int type, B* b, int, int, MPI_Comm)
{
   memmove((void*)b, (const void*)a, n * SAMRAI::tbox::sam_size(type));
   return 0;
}
template <class A, class B>
int MPI_Allgatherv(A* a, int n, int type, B* b, int*, int* disp, int, MPI_Comm)
{
   memmove((char*)b + disp[0] * SAMRAI::tbox::sam_size(type), (const void*)a, n * SAMRAI::tbox::sam_size(type));
   return 0;
}
namespace SAMRAI
{
namespace tbox
{
class Timer
{
 public:
   void start() {}
   void stop() {}
   void reset() {}
   double getTotalWallclockTime() { return 0.; }
   double getTotalUserTime() { return 0.; }
};
class Database;
class TimerManager
{
 public:
   static TimerManager* getManager()
   {
      static TimerManager m;
      return &m;
   }
   static void createManager(const std::shared_ptr<Database>&) {}
   std::shared_ptr<Timer> getTimer(const std::string&, bool = false)
   {
      static std::shared_ptr<Timer> t(new Timer());
      return t;
   }
   void print(std::ostream&) {}
   void resetAllTimers() {}
   void checkConsistency(const std::string&) {}
};
class PIO
{
 public:
   static void logOnlyNodeZero(const std::string&) {}
   static void logAllNodes(const std::string&) {}
   static void suspendLogging() {}
   static void resumeLogging() {}
};
class SAMRAIManager
{
 public:
   static void initialize(bool = false) {}
   static void startup() {}
   static void shutdown() {}
   static void finalize() {}
   static int getMaxNumberPatchDataEntries() { return 1024; }
   static void setMaxNumberPatchDataEntries(int) {}
};

class DatabaseBox
{
 public:
   int d_dim;
   int d_lo[3], d_hi[3];
   DatabaseBox() : d_dim(0) {}
   DatabaseBox(const Dimension& d, const int* lo, const int* hi) : d_dim(d.getValue())
   {
      for (int i = 0; i < d_dim; i++) {
         d_lo[i] = lo[i];
         d_hi[i] = hi[i];
      }
   }
   int& lower(int i) { return d_lo[i]; }
   int lower(int i) const { return d_lo[i]; }
   int& upper(int i) { return d_hi[i]; }
   int upper(int i) const { return d_hi[i]; }
   void setDim(const Dimension& d) { d_dim = d.getValue(); }
   Dimension getDim() const { return Dimension(d_dim); }
   Dimension getDimVal() const { return Dimension(d_dim); }
};

// One class does for Database and MemoryDatabase.
class Database
{
 public:
   enum DataType {
      SAMRAI_INVALID,
      SAMRAI_DATABASE,
      SAMRAI_BOOL,
      SAMRAI_CHAR,
      SAMRAI_INT,
      SAMRAI_COMPLEX,
      SAMRAI_DOUBLE,
      SAMRAI_FLOAT,
      SAMRAI_STRING,
      SAMRAI_BOX
   };
   struct Entry {
      DataType type;
      std::shared_ptr<Database> db;
      std::vector<double> num;  // bool, int, double, float, char
      std::vector<std::string> str;
      std::vector<DatabaseBox> box;
   };
   std::map<std::string, Entry> d_e;
   std::vector<std::string> d_order;
   std::set<std::string> d_read;
   std::string d_name;
   explicit Database(const std::string& n = "db") : d_name(n) {}
   virtual ~Database() {}
   std::string getName() { return d_name; }
   const std::string& getName() const { return d_name; }
   Entry& put(const std::string& k, DataType t)
   {
      if (!d_e.count(k)) d_order.push_back(k);
      Entry e;
      e.type = t;
      d_e[k] = e;
      return d_e[k];
   }
   bool keyExists(const std::string& k) { return d_e.count(k) > 0; }
   std::vector<std::string> getAllKeys() { return d_order; }
   DataType getArrayType(const std::string& k) { return d_e.count(k) ? d_e[k].type : SAMRAI_INVALID; }
   size_t getArraySize(const std::string& k)
   {
      if (!d_e.count(k)) return 0;
      Entry& e = d_e[k];
      if (e.type == SAMRAI_STRING) return e.str.size();
      if (e.type == SAMRAI_BOX) return e.box.size();
      if (e.type == SAMRAI_DATABASE) return 0;
      return e.num.size();
   }
   bool is(const std::string& k, DataType t) { return d_e.count(k) && d_e[k].type == t; }
   bool isDatabase(const std::string& k) { return is(k, SAMRAI_DATABASE); }
   bool isBool(const std::string& k) { return is(k, SAMRAI_BOOL); }
   bool isChar(const std::string& k) { return is(k, SAMRAI_CHAR); }
   // as in SAMRAI, an integer may be read as a double
   bool isDouble(const std::string& k) { return is(k, SAMRAI_DOUBLE) || is(k, SAMRAI_INT) || is(k, SAMRAI_FLOAT); }
   bool isFloat(const std::string& k) { return isDouble(k); }
   bool isInteger(const std::string& k) { return is(k, SAMRAI_INT); }
   bool isString(const std::string& k) { return is(k, SAMRAI_STRING); }
   bool isDatabaseBox(const std::string& k) { return is(k, SAMRAI_BOX); }
   Entry& find(const std::string& k, bool ok, const char* what)
   {
      if (!d_e.count(k)) throw SamAbort("key <" + k + "> not found in database " + d_name);
      if (!ok) throw SamAbort("key <" + k + "> is not a " + what + " in database " + d_name);
      d_read.insert(k);
      return d_e[k];
   }
   Entry& scalar(const std::string& k, bool ok, const char* what)
   {
      Entry& e = find(k, ok, what);
      if ((e.type == SAMRAI_STRING ? e.str.size() : e.num.size()) != 1)
         throw SamAbort("key <" + k + "> is not a scalar");
      return e;
   }
   std::shared_ptr<Database> putDatabase(const std::string& k)
   {
      Entry& e = put(k, SAMRAI_DATABASE);
      e.db = std::make_shared<Database>(k);
      return e.db;
   }
   std::shared_ptr<Database> getDatabase(const std::string& k) { return find(k, isDatabase(k), "database").db; }
   std::shared_ptr<Database> getDatabaseWithDefault(const std::string& k, const std::shared_ptr<Database>& d)
   {
      return d_e.count(k) ? getDatabase(k) : d;
   }
   // bool
   void putBool(const std::string& k, bool v) { put(k, SAMRAI_BOOL).num.assign(1, v); }
   bool getBool(const std::string& k) { return scalar(k, isBool(k), "bool").num[0] != 0; }
   bool getBoolWithDefault(const std::string& k, const bool& d) { return d_e.count(k) ? getBool(k) : d; }
   std::vector<bool> getBoolVector(const std::string& k)
   {
      Entry& e = find(k, isBool(k), "bool");
      return std::vector<bool>(e.num.begin(), e.num.end());
   }
   // char
   void putBoolVector(const std::string& k, const std::vector<bool>& v)
   {
      put(k, SAMRAI_BOOL).num.assign(v.begin(), v.end());
   }
   void putCharVector(const std::string& k, const std::vector<char>& v)
   {
      put(k, SAMRAI_CHAR).num.assign(v.begin(), v.end());
   }
   std::vector<char> getCharVector(const std::string& k)
   {
      const std::vector<double>& n = find(k, isChar(k), "char").num;
      return std::vector<char>(n.begin(), n.end());
   }
   void putFloatVector(const std::string& k, const std::vector<float>& v)
   {
      put(k, SAMRAI_FLOAT).num.assign(v.begin(), v.end());
   }
   std::vector<float> getFloatVector(const std::string& k)
   {
      const std::vector<double>& n = find(k, isFloat(k), "float").num;
      return std::vector<float>(n.begin(), n.end());
   }
   void putChar(const std::string& k, char v) { put(k, SAMRAI_CHAR).num.assign(1, v); }
   char getChar(const std::string& k) { return (char)scalar(k, isChar(k), "char").num[0]; }
   // int
   void putInteger(const std::string& k, int v) { put(k, SAMRAI_INT).num.assign(1, v); }
   void putIntegerVector(const std::string& k, const std::vector<int>& v)
   {
      put(k, SAMRAI_INT).num.assign(v.begin(), v.end());
   }
   void putIntegerArray(const std::string& k, const int* v, size_t n) { put(k, SAMRAI_INT).num.assign(v, v + n); }
   int getInteger(const std::string& k) { return (int)scalar(k, isInteger(k), "int").num[0]; }
   int getIntegerWithDefault(const std::string& k, const int& d) { return d_e.count(k) ? getInteger(k) : d; }
   std::vector<int> getIntegerVector(const std::string& k)
   {
      Entry& e = find(k, isInteger(k), "int");
      return std::vector<int>(e.num.begin(), e.num.end());
   }
   template <class T>
   void getArr(const std::string& k, T* v, size_t n, bool ok, const char* what)
   {
      Entry& e = find(k, ok, what);
      if (e.num.size() != n) throw SamAbort("key <" + k + ">: wrong array size");
      for (size_t i = 0; i < n; i++)
         v[i] = (T)e.num[i];
   }
   void getIntegerArray(const std::string& k, int* v, size_t n) { getArr(k, v, n, isInteger(k), "int"); }
   void getBoolArray(const std::string& k, bool* v, size_t n) { getArr(k, v, n, isBool(k), "bool"); }
   // double, float
   void putDouble(const std::string& k, double v) { put(k, SAMRAI_DOUBLE).num.assign(1, v); }
   void putDoubleVector(const std::string& k, const std::vector<double>& v) { put(k, SAMRAI_DOUBLE).num = v; }
   void putDoubleArray(const std::string& k, const double* v, size_t n) { put(k, SAMRAI_DOUBLE).num.assign(v, v + n); }
   double getDouble(const std::string& k) { return scalar(k, isDouble(k), "double").num[0]; }
   double getDoubleWithDefault(const std::string& k, const double& d) { return d_e.count(k) ? getDouble(k) : d; }
   std::vector<double> getDoubleVector(const std::string& k) { return find(k, isDouble(k), "double").num; }
   void getDoubleArray(const std::string& k, double* v, size_t n) { getArr(k, v, n, isDouble(k), "double"); }
   float getFloat(const std::string& k) { return (float)getDouble(k); }
   float getFloatWithDefault(const std::string& k, const float& d) { return d_e.count(k) ? getFloat(k) : d; }
   void putFloat(const std::string& k, float v) { put(k, SAMRAI_FLOAT).num.assign(1, v); }
   void getFloatArray(const std::string& k, float* v, size_t n) { getArr(k, v, n, isFloat(k), "float"); }
   // string
   void putString(const std::string& k, const std::string& v) { put(k, SAMRAI_STRING).str.assign(1, v); }
   void putStringVector(const std::string& k, const std::vector<std::string>& v) { put(k, SAMRAI_STRING).str = v; }
   std::string getString(const std::string& k) { return scalar(k, isString(k), "string").str[0]; }
   std::string getStringWithDefault(const std::string& k, const std::string& d)
   {
      return d_e.count(k) ? getString(k) : d;
   }
   std::vector<std::string> getStringVector(const std::string& k) { return find(k, isString(k), "string").str; }
   void getStringArray(const std::string& k, std::string* v, size_t n)
   {
      Entry& e = find(k, isString(k), "string");
      if (e.str.size() != n) throw SamAbort("key <" + k + ">: wrong array size");
      std::copy(e.str.begin(), e.str.end(), v);
   }
   // box
   void putDatabaseBox(const std::string& k, const DatabaseBox& b) { put(k, SAMRAI_BOX).box.assign(1, b); }
   DatabaseBox getDatabaseBox(const std::string& k) { return find(k, isDatabaseBox(k), "box").box[0]; }
   std::vector<DatabaseBox> getDatabaseBoxVector(const std::string& k)
   {
      return find(k, isDatabaseBox(k), "box").box;
   }
   void printClassData(std::ostream&) {}
   bool close() { return true; }
   bool create(const std::string&) { return true; }
   bool open(const std::string&, bool = false) { return true; }
   // resolve integers where doubles are meant (see parser)
};
class MemoryDatabase : public Database
{
 public:
   explicit MemoryDatabase(const std::string& n) : Database(n) {}
};
class HDFDatabase : public Database
{
 public:
   explicit HDFDatabase(const std::string& n) : Database(n) {}
};
class Serializable
{
 public:
   virtual ~Serializable() {}
   virtual void putToRestart(const std::shared_ptr<Database>&) const = 0;
};

// SAMRAI input syntax: key = v, v, ...   name { ... }   // and /* */ comments
class InputParser
{
 public:
   static void parse(const std::string& text, std::shared_ptr<Database> db)
   {
      InputParser p(text);
      p.block(*db, false);
   }
   static std::string slurp(const std::string& f)
   {
      std::ifstream in(f.c_str());
      if (!in) throw SamAbort("cannot open input file " + f);
      std::ostringstream o;
      o << in.rdbuf();
      return o.str();
   }

 private:
   const std::string& s;
   size_t i;
   explicit InputParser(const std::string& t) : s(t), i(0) {}
   void skip()
   {
      while (i < s.size()) {
         if (isspace((unsigned char)s[i]))
            i++;
         else if (s.compare(i, 2, "//") == 0)
            while (i < s.size() && s[i] != '\n')
               i++;
         else if (s.compare(i, 2, "/*") == 0) {
            size_t e = s.find("*/", i + 2);
            i = e == std::string::npos ? s.size() : e + 2;
         } else
            break;
      }
   }
   std::string word()
   {
      size_t b = i;
      while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_'))
         i++;
      if (b == i) throw SamAbort("input syntax error near: " + s.substr(b, 30));
      return s.substr(b, i - b);
   }
   void block(Database& db, bool inner)
   {
      for (;;) {
         skip();
         if (i >= s.size()) {
            if (inner) throw SamAbort("input: missing }");
            return;
         }
         if (s[i] == '}') {
            i++;
            return;
         }
         std::string k = word();
         skip();
         if (i < s.size() && s[i] == '{') {
            i++;
            block(*db.putDatabase(k), true);
         } else if (i < s.size() && s[i] == '=') {
            i++;
            values(db, k);
         } else
            throw SamAbort("input syntax error after " + k);
      }
   }
   void values(Database& db, const std::string& k)
   {
      std::vector<double> num;
      std::vector<std::string> str;
      std::vector<DatabaseBox> box;
      bool isint = true, isbool = false;
      for (;;) {
         skip();
         if (s[i] == '"') {
            size_t e = s.find('"', i + 1);
            str.push_back(s.substr(i + 1, e - i - 1));
            i = e + 1;
         } else if (s[i] == '[') {
            std::vector<int> v;
            int depth = 0;
            do {
               if (s[i] == '[' || s[i] == '(') depth++;
               if (s[i] == ']' || s[i] == ')') depth--;
               if (s[i] == '-' || isdigit((unsigned char)s[i])) {
                  char* e;
                  v.push_back((int)strtol(&s[i], &e, 10));
                  i = e - &s[0];
               } else
                  i++;
            } while (depth > 0);
            box.push_back(DatabaseBox(Dimension(v.size() / 2), &v[0], &v[v.size() / 2]));
         } else if (isalpha((unsigned char)s[i])) {
            std::string w = word();
            if (w != "TRUE" && w != "FALSE") throw SamAbort("input: unknown value " + w);
            isbool = true;
            num.push_back(w == "TRUE");
         } else
            num.push_back(expr(isint));
         skip();
         if (i < s.size() && s[i] == ',') {
            i++;
            continue;
         }
         break;
      }
      if (!str.empty())
         db.putStringVector(k, str);
      else if (!box.empty())
         db.put(k, Database::SAMRAI_BOX).box = box;
      else
         db.put(k, isbool ? Database::SAMRAI_BOOL : isint ? Database::SAMRAI_INT : Database::SAMRAI_DOUBLE).num = num;
   }
   double expr(bool& isint)
   {
      double v = term(isint);
      for (;;) {
         skipnl();
         if (i < s.size() && (s[i] == '+' || s[i] == '-')) {
            char c = s[i++];
            double t = term(isint);
            v = c == '+' ? v + t : v - t;
         } else
            return v;
      }
   }
   void skipnl()
   {
      while (i < s.size() && (s[i] == ' ' || s[i] == '\t'))
         i++;
   }
   double term(bool& isint)
   {
      double v = atom(isint);
      for (;;) {
         skipnl();
         if (i < s.size() && (s[i] == '*' || (s[i] == '/' && s[i + 1] != '/' && s[i + 1] != '*'))) {
            char c = s[i++];
            double t = atom(isint);
            v = c == '*' ? v * t : v / t;
         } else
            return v;
      }
   }
   double atom(bool& isint)
   {
      skipnl();
      if (s[i] == '(') {
         i++;
         double v = expr(isint);
         skipnl();
         i++;
         return v;
      }
      char* e;
      double v = strtod(&s[i], &e);
      std::string t(&s[i], e - &s[i]);
      if (t.empty()) throw SamAbort("input syntax error near: " + s.substr(i, 30));
      i = e - &s[0];
      if (t.find_first_of(".eE") != std::string::npos) isint = false;
      return v;
   }
};
class InputDatabase : public Database
{
 public:
   explicit InputDatabase(const std::string& n) : Database(n) {}
};
class InputManager
{
 public:
   static InputManager* getManager()
   {
      static InputManager m;
      return &m;
   }
   // files registered by a check are read from memory
   std::map<std::string, std::string> d_files;
   std::string text(const std::string& f) { return d_files.count(f) ? d_files[f] : InputParser::slurp(f); }
   template <class D>
   void parseInputFile(const std::string& f, const std::shared_ptr<D>& db)
   {
      std::string t = text(f);
      InputParser::parse(t, db);
   }
   std::shared_ptr<InputDatabase> parseInputFile(const std::string& f)
   {
      std::shared_ptr<InputDatabase> db(new InputDatabase("input"));
      parseInputFile(f, db);
      return db;
   }
   static std::shared_ptr<Database> getInputDatabase() { return std::shared_ptr<Database>(); }
};
class RestartManager
{
 public:
   static RestartManager* getManager()
   {
      static RestartManager m;
      return &m;
   }
   bool d_from_restart;
   std::shared_ptr<Database> d_root;
   std::map<std::string, Serializable*> d_items;
   std::map<std::string, std::shared_ptr<Database> > d_saved;
   RestartManager() : d_from_restart(false), d_root(new Database("root")) {}
   bool isFromRestart() { return d_from_restart; }
   std::shared_ptr<Database> getRootDatabase() { return d_root; }
   void registerRestartItem(const std::string& n, Serializable* o) { d_items[n] = o; }
   void unregisterRestartItem(const std::string& n) { d_items.erase(n); }
   // to a file when the directory exists, and in memory
   static void dump(std::ostream& o, Database& d)
   {
      o << "{\n";
      for (auto& k : d.d_order) {
         Database::Entry& e = d.d_e[k];
         o << k << "\n" << (int)e.type << "\n";
         if (e.type == Database::SAMRAI_DATABASE)
            dump(o, *e.db);
         else if (e.type == Database::SAMRAI_STRING) {
            o << e.str.size() << "\n";
            for (auto& t : e.str)
               o << t << "\n";
         } else {
            o << e.num.size() << "\n";
            o.write((const char*)e.num.data(), e.num.size() * sizeof(double));
            o << "\n";
         }
      }
      o << "}\n";
   }
   static void load(std::istream& in, Database& d)
   {
      std::string k, t;
      std::getline(in, k);
      if (k != "{") throw SamAbort("damaged restart file");
      while (std::getline(in, k) && k != "}") {
         std::getline(in, t);
         Database::DataType ty = (Database::DataType)atoi(t.c_str());
         if (ty == Database::SAMRAI_DATABASE) {
            load(in, *d.putDatabase(k));
            continue;
         }
         std::getline(in, t);
         size_t n = (size_t)atol(t.c_str());
         Database::Entry& e = d.put(k, ty);
         if (ty == Database::SAMRAI_STRING) {
            for (size_t i = 0; i < n; i++) {
               std::getline(in, t);
               e.str.push_back(t);
            }
         } else {
            e.num.resize(n);
            in.read((char*)e.num.data(), n * sizeof(double));
            std::getline(in, t);
         }
      }
   }
   void writeRestartFile(const std::string& dir, int num)
   {
      std::shared_ptr<Database> r(new Database("root"));
      for (std::map<std::string, Serializable*>::iterator it = d_items.begin(); it != d_items.end(); ++it)
         it->second->putToRestart(r->putDatabase(it->first));
      d_saved[dir + "." + Utilities::intToString(num, 6)] = r;
      std::ofstream o((dir + "/restore." + Utilities::intToString(num, 6)).c_str(), std::ios::binary);
      if (o) dump(o, *r);
   }
   bool openRestartFile(const std::string& dir, int num, int)
   {
      std::ifstream in((dir + "/restore." + Utilities::intToString(num, 6)).c_str(), std::ios::binary);
      std::string k = dir + "." + Utilities::intToString(num, 6);
      if (in) {
         d_root.reset(new Database("root"));
         load(in, *d_root);
      } else {
         if (!d_saved.count(k)) return false;
         d_root = d_saved[k];
      }
      d_from_restart = true;
      return true;
   }
   void closeRestartFile() { d_from_restart = false; }
   void clearRestartItems() { d_items.clear(); }
};
class ReferenceCounter
{
};
}  // namespace tbox
}  // namespace SAMRAI
#endif
