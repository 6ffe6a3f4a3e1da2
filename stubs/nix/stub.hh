// Declarations-only stand-in for the Nix C++ API, used ONLY so that the static
// analysis front end can type-check the translation units of nixd that include
// Nix headers (which are not available offline). Nothing here is executed.
#pragma once
#include <cassert>
#include <cstdint>
#include <exception>
#include <functional>
#include <iosfwd>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>
#include <stdexcept>
namespace nix {
struct HintFmt {
  std::string str() const;
};
struct ErrorInfo {
  HintFmt msg;
};
class BaseError : public std::exception {
public:
  BaseError(const std::string &);
  const ErrorInfo &info() const;
  const char *what() const noexcept override;
};
class Error : public BaseError {
public:
  using BaseError::BaseError;
};
class EvalState;
class EvalBaseError : public Error {
public:
  EvalBaseError(EvalState &, const std::string &);
};
class EvalError : public EvalBaseError {
public:
  using EvalBaseError::EvalBaseError;
};
class TypeError : public EvalError {
public:
  using EvalError::EvalError;
};
class AttrPathNotFound : public Error {
public:
  using Error::Error;
};
struct PosIdx {
  explicit operator bool() const;
};
extern PosIdx noPos;
struct CanonPath {
  std::string abs() const;
};
struct SourcePath {
  CanonPath path;
};
struct Pos {
  uint32_t line, column;
  std::variant<std::monostate, std::string, SourcePath> origin;
};
struct PosTable {
  Pos operator[](PosIdx) const;
};
struct Symbol {
  uint32_t id;
};
struct SymbolStr {
  operator std::string_view() const;
  operator std::string() const;
};
std::string operator+(const char *, SymbolStr);
std::string operator+(std::string, const char *);
struct SymbolTable {
  Symbol create(std::string_view);
  SymbolStr operator[](Symbol) const;
};
enum ValueType {
  nThunk, nInt, nFloat, nBool, nString, nPath, nNull, nAttrs, nList, nFunction,
  nExternal,
};
struct NixInt {
  operator int64_t() const;
};
class Value;
struct Attr {
  Symbol name;
  PosIdx pos;
  Value *value;
};
struct Bindings {
  static Bindings emptyBindings;
  const Attr *get(Symbol) const;
  std::vector<const Attr *> lexicographicOrder(const SymbolTable &) const;
};
struct DocComment {
  explicit operator bool() const;
  std::string getInnerText(const PosTable &) const;
};
struct ExprLambda {
  DocComment docComment;
};
struct PrimOp {
  std::string name;
  std::vector<std::string> args;
  size_t arity;
  std::optional<std::string> doc;
  bool internal;
};
struct LambdaRef {
  ExprLambda *fun;
};
struct ListBuilder {};
class Value {
public:
  template <bool B = false> ValueType type() const;
  ValueType type() const;
  const Bindings *attrs() const;
  PosIdx determinePos(PosIdx) const;
  std::string_view string_view() const;
  const char *c_str() const;
  NixInt integer() const;
  std::vector<Value *> listView() const;
  bool isPrimOp() const;
  bool isLambda() const;
  const PrimOp *primOp() const;
  LambdaRef lambda() const;
  void print(EvalState &, std::ostream &) const;
  void mkList(const ListBuilder &);
};
struct Expr {};
struct StaticSymbols {
  Symbol type;
};
struct Store {};
std::shared_ptr<Store> openStore();
struct FetchSettings {};
struct EvalSettings {};
extern FetchSettings fetchSettings;
extern EvalSettings evalSettings;
struct LookupPath {};
class EvalState {
public:
  EvalState(const LookupPath &, std::shared_ptr<Store>, const FetchSettings &,
            const EvalSettings &);
  static StaticSymbols s;
  SymbolTable symbols;
  PosTable positions;
  void forceValue(Value &, PosIdx);
  std::string_view forceStringNoCtx(Value &, PosIdx, std::string_view);
  ListBuilder buildList(size_t);
  Value *allocValue();
  void callFunction(Value &, Value &, Value &, PosIdx);
  Expr *parseExprFromString(std::string, const SourcePath &);
  SourcePath rootPath(std::string);
  void eval(Expr *, Value &);
};
std::pair<Value *, PosIdx> findAlongAttrPath(EvalState &, const std::string &,
                                             Bindings &, Value &);
struct FlakeSettings {
  void configureEvalSettings(EvalSettings &);
};
extern FlakeSettings flakeSettings;
void initNix();
void initLibStore();
void initPlugins();
void initGC();
struct RegisterPrimOp {
  static std::vector<PrimOp> &primOps();
};
} // namespace nix
