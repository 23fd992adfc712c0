// Declarations of the part of jsoncpp 1.9.5 which is used by the generated
// code and the drivers. The development headers are not installed, while the
// library is; the layout of the classes has to match the library.
#ifndef VERIF_JSON_H
#define VERIF_JSON_H

#include <array>
#include <cstddef>
#include <cstdint>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <vector>

namespace Json {

using Int = int;
using UInt = unsigned int;
using Int64 = int64_t;
using UInt64 = uint64_t;
using LargestInt = Int64;
using LargestUInt = UInt64;
using ArrayIndex = unsigned int;
using String = std::string;

enum ValueType {
  nullValue = 0,
  intValue,
  uintValue,
  realValue,
  stringValue,
  booleanValue,
  arrayValue,
  objectValue
};

class Value;
class ValueIterator;
class ValueConstIterator;

class Value {
  friend class ValueIteratorBase;

 public:
  using const_iterator = ValueConstIterator;
  using iterator = ValueIterator;
  class CZString;
  typedef std::map<CZString, Value> ObjectValues;

  Value(ValueType type = nullValue);
  Value(Int value);
  Value(UInt value);
  Value(Int64 value);
  Value(UInt64 value);
  Value(double value);
  Value(const char* value);
  Value(const char* begin, const char* end);
  Value(const String& value);
  Value(bool value);
  Value(std::nullptr_t ptr) = delete;
  Value(const Value& other);
  Value(Value&& other);
  ~Value();

  Value& operator=(const Value& other);
  Value& operator=(Value&& other);

  ValueType type() const;
  bool operator==(const Value& other) const;
  bool operator!=(const Value& other) const;

  const char* asCString() const;
  String asString() const;
  Int asInt() const;
  UInt asUInt() const;
  Int64 asInt64() const;
  UInt64 asUInt64() const;
  LargestInt asLargestInt() const;
  LargestUInt asLargestUInt() const;
  float asFloat() const;
  double asDouble() const;
  bool asBool() const;

  bool isNull() const;
  bool isBool() const;
  bool isInt() const;
  bool isInt64() const;
  bool isUInt() const;
  bool isUInt64() const;
  bool isIntegral() const;
  bool isDouble() const;
  bool isNumeric() const;
  bool isString() const;
  bool isArray() const;
  bool isObject() const;
  bool isConvertibleTo(ValueType other) const;

  ArrayIndex size() const;
  bool empty() const;
  void clear();
  void resize(ArrayIndex newSize);

  Value& operator[](ArrayIndex index);
  Value& operator[](int index);
  const Value& operator[](ArrayIndex index) const;
  const Value& operator[](int index) const;
  Value& append(const Value& value);
  Value& append(Value&& value);
  Value& operator[](const char* key);
  const Value& operator[](const char* key) const;
  Value& operator[](const String& key);
  const Value& operator[](const String& key) const;
  bool isMember(const char* key) const;
  bool isMember(const String& key) const;
  std::vector<String> getMemberNames() const;
  String toStyledString() const;

  const_iterator begin() const;
  const_iterator end() const;
  iterator begin();
  iterator end();

 private:
  union ValueHolder {
    LargestInt int_;
    LargestUInt uint_;
    double real_;
    bool bool_;
    char* string_;
    ObjectValues* map_;
  } value_;

  struct {
    unsigned int value_type_ : 8;
    unsigned int allocated_ : 1;
  } bits_;

  class Comments {
   private:
    using Array = std::array<String, 3>;
    std::unique_ptr<Array> ptr_;
  };
  Comments comments_;

  ptrdiff_t offset_start_;
  ptrdiff_t offset_limit_;
};

static_assert(sizeof(Value) == 40, "layout of Json::Value");

class ValueIteratorBase {
 public:
  ValueIteratorBase();
  bool operator==(const ValueIteratorBase& other) const {
    return isEqual(other);
  }
  bool operator!=(const ValueIteratorBase& other) const {
    return !isEqual(other);
  }
  Value key() const;
  UInt index() const;
  String name() const;

 protected:
  const Value& deref() const;
  Value& deref();
  void increment();
  void decrement();
  bool isEqual(const ValueIteratorBase& other) const;

 private:
  // stands for std::map<CZString, Value>::iterator
  struct MapIterator {
    void* node;
  } current_{nullptr};
  bool isNull_{true};
};

class ValueConstIterator : public ValueIteratorBase {
 public:
  ValueConstIterator();
  ValueConstIterator(const ValueConstIterator&) = default;
  ValueConstIterator& operator=(const ValueConstIterator&) = default;
  ValueConstIterator& operator++() {
    increment();
    return *this;
  }
  ValueConstIterator operator++(int) {
    ValueConstIterator temp(*this);
    ++*this;
    return temp;
  }
  const Value& operator*() const { return deref(); }
  const Value* operator->() const { return &deref(); }
};

class ValueIterator : public ValueIteratorBase {
 public:
  ValueIterator();
  ValueIterator(const ValueIterator& other);
  ValueIterator& operator=(const ValueIterator& other);
  ValueIterator& operator++() {
    increment();
    return *this;
  }
  Value& operator*() { return deref(); }
  Value* operator->() { return &deref(); }
};

std::ostream& operator<<(std::ostream& out, const Value& root);

class CharReader {
 public:
  virtual ~CharReader() = default;
  virtual bool parse(char const* begin, char const* end, Value* root,
                     String* errs) = 0;

  class Factory {
   public:
    virtual ~Factory() = default;
    virtual CharReader* newCharReader() const = 0;
  };
};

class CharReaderBuilder : public CharReader::Factory {
 public:
  Value settings_;
  CharReaderBuilder();
  ~CharReaderBuilder() override;
  CharReader* newCharReader() const override;
};

class StreamWriter {
 protected:
  std::ostream* sout_;

 public:
  StreamWriter();
  virtual ~StreamWriter();
  virtual int write(Value const& root, std::ostream* sout) = 0;

  class Factory {
   public:
    virtual ~Factory();
    virtual StreamWriter* newStreamWriter() const = 0;
  };
};

String writeString(StreamWriter::Factory const& factory, Value const& root);

class StreamWriterBuilder : public StreamWriter::Factory {
 public:
  Value settings_;
  StreamWriterBuilder();
  ~StreamWriterBuilder() override;
  StreamWriter* newStreamWriter() const override;
};

}  // namespace Json
#endif
