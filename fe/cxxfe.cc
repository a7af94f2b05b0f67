// cxxfe: extracts the functions of a C++ translation unit, as the compiler's
// own front end (clang 18) understands them, into a compact JSON form that the
// verification-condition generator in /verif/vc reads.  Nothing is interpreted
// here; the extraction keeps every statement and expression, makes implicit
// conversions, default arguments and desugared range-for loops explicit, and
// drops only parentheses, cleanups wrappers and attributes.
#include <fstream>
#include <map>
#include <set>
#include <deque>
#include <sstream>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_out;
static std::vector<std::string> g_prefixes;  // directories whose code we emit

namespace {

const char* kAllowedHeaders[] = {
    "bits/stl_algo.h", "bits/stl_algobase.h", "bits/stl_numeric.h",
    "bits/predefined_ops.h", "bits/move.h", "bits/utility.h",
    "bits/stl_iterator_base_funcs.h", "bits/ranges_algo.h", "bits/ranges_algobase.h",
    "bits/ranges_util.h", "/numeric", "/utility", "bits/invoke.h", "absl/algorithm/container.h",
    "absl/algorithm/algorithm.h", "absl/strings/ascii.h", "bits/stl_function.h", "/functional",
    "bits/range_access.h", "bits/ranges_base.h", "bits/ranges_cmp.h", "/bit", "absl/strings/strip.h", "absl/strings/match.h",
};

// Constructor calls and calls of a library function's definition.
struct Constructions : RecursiveASTVisitor<Constructions> {
  std::vector<CXXConstructExpr*> made;
  std::vector<FunctionDecl*> called;
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitCXXConstructExpr(CXXConstructExpr* e) { made.push_back(e); called.push_back(e->getConstructor()); return true; }
  bool VisitCallExpr(CallExpr* e) { if (auto* f = e->getDirectCallee()) called.push_back(f); return true; }
};

class Emitter {
 public:
  Emitter(ASTContext& ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), namer_(ctx), pp_(ctx.getPrintingPolicy()) {
    pp_.SuppressInlineNamespace = true;
    pp_.SuppressUnwrittenScope = true;
    pp_.Bool = true;
    mainfile_ = sm_.getFileEntryRefForID(sm_.getMainFileID())->getName().str();
    auto p = mainfile_.rfind('/');
    if (p != std::string::npos) mainfile_ = mainfile_.substr(p + 1);
  }

  // ---- locations -------------------------------------------------------
  std::string fileOf(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    auto pl = sm_.getPresumedLoc(l);
    return pl.isValid() ? std::string(pl.getFilename()) : std::string();
  }
  std::string locStr(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    auto pl = sm_.getPresumedLoc(l);
    if (!pl.isValid()) return "?";
    return std::string(pl.getFilename()) + ":" + std::to_string(pl.getLine());
  }
  int64_t line(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    auto pl = sm_.getPresumedLoc(l);
    return pl.isValid() ? pl.getLine() : 0;
  }
  bool inRepo(SourceLocation l) {
    std::string f = fileOf(l);
    for (auto& p : g_prefixes)
      if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  bool emittable(const FunctionDecl* fd) {
    if (inRepo(fd->getLocation())) return true;
    const CXXMethodDecl* md = dyn_cast<CXXMethodDecl>(fd);
    if (md && md->getParent()->isLambda() && inRepo(md->getParent()->getLocation())) return true;
    std::string f = fileOf(fd->getLocation());
    for (std::string h : kAllowedHeaders) {
      if (h[0] != '/') h = "/" + h;
      if (f.size() >= h.size() && f.compare(f.size() - h.size(), h.size(), h) == 0) return true;
    }
    return false;
  }

  // ---- names ------------------------------------------------------------
  std::string qname(const NamedDecl* d) {
    std::string own;
    if (auto* rd = dyn_cast<CXXRecordDecl>(d)) {
      if (rd->isLambda()) own = "(lambda)";
      else if (rd->getIdentifier()) own = rd->getName().str();
      else own = "(anonymous)";
    } else {
      own = d->getDeclName().getAsString();
      // ctor names print with template args; strip
      auto lt = own.find('<');
      if (isa<CXXConstructorDecl>(d) || isa<CXXDestructorDecl>(d)) {
        if (lt != std::string::npos) own = own.substr(0, lt);
      }
    }
    std::string q = own;
    const DeclContext* dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (ns->isInline()) {
        } else if (ns->isAnonymousNamespace()) {
        } else
          q = ns->getName().str() + "::" + q;
      } else if (auto* rd = dyn_cast<CXXRecordDecl>(dc)) {
        q = (rd->isLambda() ? std::string("(lambda)")
                            : rd->getIdentifier() ? rd->getName().str() : std::string("(anonymous)")) + "::" + q;
      } else if (auto* fd = dyn_cast<FunctionDecl>(dc)) {
        return qname(fd) + "::" + q;
      } else if (auto* ed = dyn_cast<EnumDecl>(dc)) {
        if (ed->isScoped()) q = ed->getName().str() + "::" + q;
      }
      dc = dc->getParent();
    }
    return q;
  }
  std::string key(const NamedDecl* d) {
    auto it = keys_.find(d->getCanonicalDecl());
    if (it != keys_.end()) return it->second;
    std::string s;
    if (auto* fd = dyn_cast<FunctionDecl>(d)) {
      if (fd->isDependentContext()) s = "DEP:" + qname(fd);
      else s = namer_.getName(fd);
    } else {
      s = namer_.getName(d);
    }
    if (s.empty()) s = qname(d);
    if (auto* vd = dyn_cast<ValueDecl>(d))
      if (!vd->isExternallyVisible()) s += "@" + mainfile_;
    // lambdas (and other local entities) may collide: disambiguate by location
    if (auto* md = dyn_cast<CXXMethodDecl>(d)) {
      if (md->getParent()->isLambda())
        s += "@" + locStr(md->getParent()->getLocation()) + ":" +
             std::to_string(sm_.getExpansionColumnNumber(md->getParent()->getLocation()));
    }
    keys_[d->getCanonicalDecl()] = s;
    return s;
  }

  // ---- types --------------------------------------------------------------
  int T(QualType qt) {
    if (qt.isNull()) return -1;
    qt = qt.getCanonicalType().getUnqualifiedType();
    if (auto* at = ctx_.getAsArrayType(qt)) (void)at;
    void* p = qt.getAsOpaquePtr();
    auto it = tid_.find(p);
    if (it != tid_.end()) return it->second;
    int id = types_.size();
    tid_[p] = id;
    types_.push_back(nullptr);
    json::Object o;
    o["s"] = qt.getAsString(pp_);
    const Type* t = qt.getTypePtr();
    if (t->isDependentType()) {
      o["k"] = "dep";
    } else if (t->isBooleanType()) {
      o["k"] = "bool";
    } else if (t->isEnumeralType()) {
      auto* ed = t->castAs<EnumType>()->getDecl();
      o["k"] = "enum";
      o["n"] = qname(ed);
      QualType ut = ed->getIntegerType();
      if (!ut.isNull()) {
        o["w"] = (int64_t)ctx_.getTypeSize(ut);
        o["sg"] = ut->isSignedIntegerType();
      }
      needEnum(ed);
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)ctx_.getTypeSize(qt);
      o["sg"] = t->isSignedIntegerType();
    } else if (t->isFloatingType()) {
      o["k"] = "float";
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (t->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = T(t->getPointeeType());
    } else if (t->isLValueReferenceType()) {
      o["k"] = "lref";
      o["to"] = T(t->getPointeeType());
      o["cst"] = t->getPointeeType().isConstQualified();
    } else if (t->isRValueReferenceType()) {
      o["k"] = "rref";
      o["to"] = T(t->getPointeeType());
    } else if (auto* at = ctx_.getAsConstantArrayType(qt)) {
      o["k"] = "arr";
      o["el"] = T(at->getElementType());
      o["n"] = (int64_t)at->getSize().getZExtValue();
    } else if (t->isRecordType()) {
      auto* rd = t->getAsCXXRecordDecl();
      o["k"] = "rec";
      o["tn"] = qname(rd);
      o["ta"] = templArgs(rd);
      o["key"] = recKey(rd);
      needRecord(rd);
    } else if (t->isFunctionType()) {
      o["k"] = "fn";
    } else if (t->isMemberPointerType()) {
      o["k"] = "memptr";
    } else {
      o["k"] = "other";
    }
    types_[id] = std::move(o);
    return id;
  }
  json::Array templArgs(const CXXRecordDecl* rd) {
    json::Array a;
    if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) addArgs(sp->getTemplateArgs().asArray(), a);
    return a;
  }
  void addArgs(llvm::ArrayRef<TemplateArgument> args, json::Array& a) {
    for (auto& ta : args) {
      switch (ta.getKind()) {
        case TemplateArgument::Type: a.push_back(json::Object{{"t", T(ta.getAsType())}}); break;
        case TemplateArgument::Integral: a.push_back(json::Object{{"i", (int64_t)ta.getAsIntegral().getExtValue()}}); break;
        case TemplateArgument::Pack: addArgs(ta.pack_elements(), a); break;
        default: a.push_back(json::Object{{"x", 1}});
      }
    }
  }
  std::string recKey(const CXXRecordDecl* rd) {
    if (rd->isLambda())
      return "lambda@" + locStr(rd->getLocation()) + ":" + std::to_string(sm_.getExpansionColumnNumber(rd->getLocation())) +
             ":" + (rd->getLambdaCallOperator() ? std::string(namer_.getName(rd->getLambdaCallOperator())) : "");
    std::string s = ctx_.getRecordType(rd).getCanonicalType().getAsString(pp_);
    // anonymous-namespace and local classes of different files may share a name
    if (!rd->isExternallyVisible()) s += "@" + mainfile_;
    return s;
  }
  void needEnum(const EnumDecl* ed) {
    ed = ed->getDefinition() ? ed->getDefinition() : ed;
    std::string n = qname(ed);
    if (enums_.count(n)) return;
    json::Object o;
    for (auto* e : ed->enumerators()) o[e->getName()] = (int64_t)e->getInitVal().getExtValue();
    enums_.emplace(n, std::move(o));
  }
  void needRecord(const CXXRecordDecl* rd) {
    if (auto* d = rd->getDefinition()) rd = d;
    if (!rec_seen_.insert(rd).second) return;
    rec_work_.push_back(rd);
  }

  // ---- functions ------------------------------------------------------------
  json::Object fnref(const FunctionDecl* fd) {
    json::Object o;
    const FunctionDecl* use = fd;
    std::string k = key(fd);
    o["m"] = k;
    if (!fninfo_.count(k)) {
      fninfo_.insert(k);
      json::Object i;
      i["q"] = qname(fd);
      i["n"] = fd->getDeclName().getAsString();
      i["file"] = locStr(fd->getLocation());
      if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
        i["cls"] = recKey(md->getParent());
        i["ct"] = T(ctx_.getRecordType(md->getParent()));
        i["static"] = md->isStatic();
        i["virtual"] = md->isVirtual();
        i["const"] = md->isConst();
        i["pure"] = md->isPureVirtual();
        if (md->isCopyAssignmentOperator()) i["sp"] = "copyassign";
        if (md->isMoveAssignmentOperator()) i["sp"] = "moveassign";
        if (auto* cd = dyn_cast<CXXConstructorDecl>(md)) {
          i["ctor"] = true;
          if (cd->isCopyConstructor()) i["sp"] = "copyctor";
          else if (cd->isMoveConstructor()) i["sp"] = "movector";
          else if (cd->isDefaultConstructor()) i["sp"] = "defctor";
        }
        if (isa<CXXDestructorDecl>(md)) i["sp"] = "dtor";
        if (isa<CXXConversionDecl>(md)) i["conv"] = true;
      }
      i["defaulted"] = fd->isDefaulted();
      i["implicit"] = fd->isImplicit();
      i["trivial"] = fd->isTrivial();
      i["rt"] = T(fd->getReturnType());
      if (fd->isVariadic()) i["variadic"] = true;
      json::Array pt;
      for (auto* p : fd->parameters()) pt.push_back(T(p->getType()));
      i["pt"] = std::move(pt);
      if (auto* ta = fd->getTemplateSpecializationArgs()) {
        json::Array a;
        addArgs(ta->asArray(), a);
        i["ta"] = std::move(a);
      }
      std::string n = fd->getDeclName().getAsString();
      if (!inRepo(fd->getLocation()) && (n.find("emplace") != std::string::npos || n == "make_unique" || n == "make_shared" || n == "optional" || n == "variant"))
        i["makes"] = constructions(fd);
      finfo_[k] = std::move(i);
    }
    needFn(use);
    return o;
  }
  // The constructors to which a library function hands its arguments on
  // (emplace_back, make_unique, ...), as overload resolution chose them there,
  // with the default arguments it added.
  json::Array constructions(const FunctionDecl* fd) {
    json::Array out;
    std::vector<std::string> want;
    for (auto* p : fd->parameters()) want.push_back(p->getType().getNonReferenceType().getCanonicalType().getAsString() + (p->getType()->isRValueReferenceType() ? "&&" : ""));
    std::set<const FunctionDecl*> seen;
    std::set<std::string> done;
    std::deque<const FunctionDecl*> work{fd};
    while (!work.empty() && seen.size() < 600) {
      const FunctionDecl* f = work.front(); work.pop_front();
      const FunctionDecl* def = nullptr;
      if (!f->hasBody(def) || !seen.insert(def).second || def->isDependentContext() || inRepo(def->getLocation())) continue;
      Constructions v;
      v.TraverseStmt(def->getBody());
      if (auto* cd = dyn_cast<CXXConstructorDecl>(def))
        for (auto* i : cd->inits()) if (i->getInit()) v.TraverseStmt(i->getInit());
      for (auto* c : v.called) work.push_back(c);
      for (auto* e : v.made) {
        std::vector<std::string> got;
        bool fwd = true;
        unsigned n = 0;
        for (; n < e->getNumArgs() && !isa<CXXDefaultArgExpr>(e->getArg(n)); ++n) {
          const Expr* a = e->getArg(n);
          for (const Expr* was = nullptr; was != a;) {
            was = a;
            a = a->IgnoreParenImpCasts();
            if (auto* t = dyn_cast<MaterializeTemporaryExpr>(a)) a = t->getSubExpr();
            if (auto* t = dyn_cast<CXXBindTemporaryExpr>(a)) a = t->getSubExpr();
            if (auto* t = dyn_cast<CXXConstructExpr>(a)) if (t->getNumArgs()) a = t->getArg(0);
          }
          if (auto* c = dyn_cast<CallExpr>(a))
            if (c->getNumArgs() == 1 && c->getDirectCallee() && c->getDirectCallee()->getDeclName().getAsString() == "forward") a = c->getArg(0)->IgnoreParenImpCasts();
          auto* d = dyn_cast<DeclRefExpr>(a);
          auto* p = d ? dyn_cast<ParmVarDecl>(d->getDecl()) : nullptr;
          if (!p) { fwd = false; break; }
          got.push_back(p->getType().getNonReferenceType().getCanonicalType().getAsString() + (p->getType()->isRValueReferenceType() ? "&&" : ""));
        }
        if (!fwd || !n || got.size() > want.size() || !std::equal(got.begin(), got.end(), want.end() - got.size())) continue;
        std::string id = key(e->getConstructor());
        if (!done.insert(id + "#" + std::to_string(n)).second) continue;
        json::Array def;
        for (unsigned j = n; j < e->getNumArgs(); ++j) def.push_back(E(e->getArg(j)));
        json::Object o = fnref(e->getConstructor());
        o["cls"] = recKey(e->getConstructor()->getParent());
        o["n"] = (int64_t)n;
        o["def"] = std::move(def);
        out.push_back(std::move(o));
      }
    }
    return out;
  }
  void needFn(const FunctionDecl* fd) {
    if (!fn_seen_.insert(fd->getCanonicalDecl()).second) return;
    fn_work_.push_back(fd);
  }

  int varId(const VarDecl* vd) {
    vd = vd->getCanonicalDecl();
    auto it = vid_.find(vd);
    if (it != vid_.end()) return it->second;
    int id = vid_.size() + 1;
    vid_[vd] = id;
    return id;
  }

  // ---- expressions -----------------------------------------------------------
  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    if (auto* x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) {
      return json::Object{{"k", "full"}, {"e", E(x->getSubExpr())}, {"t", T(e->getType())}};
    }
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
      return json::Object{{"k", "stdinit"}, {"t", T(e->getType())}, {"e", E(x->getSubExpr())}};
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ChooseExpr>(e)) return E(x->getChosenSubExpr());
    if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return E(x->getResultExpr());
    json::Object o;
    o["t"] = T(e->getType());
    if (e->isLValue()) o["vc"] = "l";
    else if (e->isXValue()) o["vc"] = "x";
    if (e->isValueDependent() || e->isTypeDependent()) {
      o["k"] = "unsupported";
      o["what"] = "dependent";
      return std::move(o);
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      o["v"] = intStr(x->getValue(), e->getType());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int";
      o["v"] = std::to_string((int64_t)(x->getKind() == CharacterLiteralKind::Ascii ? (int64_t)(signed char)x->getValue() : (int64_t)x->getValue()));
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
      return std::move(o);
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
      return std::move(o);
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float";
      o["v"] = x->getValueAsApproximateDouble();
      return std::move(o);
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      json::Array a;
      if (x->getCharByteWidth() == 1)
        for (unsigned char c : x->getBytes()) a.push_back((int64_t)c);
      o["b"] = std::move(a);
      return std::move(o);
    }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) return E(x->getFunctionName());
    if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<OffsetOfExpr>(e) || isa<TypeTraitExpr>(e) ||
        isa<SizeOfPackExpr>(e) || isa<ConceptSpecializationExpr>(e) || isa<RequiresExpr>(e) || isa<CXXNoexceptExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx_)) {
        o["k"] = e->getType()->isBooleanType() ? "bool" : "int";
        if (e->getType()->isBooleanType()) o["v"] = r.Val.getInt().getBoolValue();
        else o["v"] = intStr(r.Val.getInt(), e->getType());
        return std::move(o);
      }
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) return declRef(x->getDecl(), x, std::move(o));
    if (auto* x = dyn_cast<CXXThisExpr>(e)) {
      o["k"] = "this";
      if (cur_lambda_ && e->getType()->getPointeeCXXRecordDecl() != cur_lambda_) o["cap"] = true;
      return std::move(o);
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if (auto* vd = dyn_cast<VarDecl>(d)) return declRef(vd, e, std::move(o));  // static member
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) return declRef(ec, e, std::move(o));
      if (auto* md = dyn_cast<CXXMethodDecl>(d)) {
        o["k"] = "fnref";
        o["f"] = fnref(md);
        return std::move(o);
      }
      o["k"] = "mem";
      o["n"] = fieldName(cast<FieldDecl>(d));
      o["e"] = objExpr(x->getBase(), x->isArrow());
      o["ln"] = line(e->getExprLoc());
      return std::move(o);
    }
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "mat";
      o["e"] = E(x->getSubExpr());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CastExpr>(e)) return castExpr(x, std::move(o));
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str() + (x->isPostfix() ? "post" : "");
      if (x->getOpcode() == UO_Deref) o["op"] = "deref";
      if (x->getOpcode() == UO_AddrOf) {
        o["op"] = "addr";
        if (auto* dr = dyn_cast<DeclRefExpr>(x->getSubExpr()->IgnoreParens()))
          if (auto* fd = dyn_cast<FunctionDecl>(dr->getDecl())) {
            o["k"] = "fnref";
            o["f"] = fnref(fd);
            return std::move(o);
          }
      }
      o["e"] = E(x->getSubExpr());
      o["ln"] = line(e->getExprLoc());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "cas";
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["l"] = E(x->getLHS());
      o["r"] = E(x->getRHS());
      o["clt"] = T(x->getComputationLHSType());
      o["crt"] = T(x->getComputationResultType());
      o["ln"] = line(x->getOperatorLoc());
      return std::move(o);
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "bin";
      o["op"] = x->getOpcodeStr().str();
      o["l"] = E(x->getLHS());
      o["r"] = E(x->getRHS());
      o["ln"] = line(x->getOperatorLoc());
      return std::move(o);
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
      return std::move(o);
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "idx";
      o["b"] = E(x->getBase());
      o["i"] = E(x->getIdx());
      o["ln"] = line(e->getExprLoc());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto* fd = x->getDirectCallee();
      if (!fd) return unsup(e, "opcall");
      o["k"] = "call";
      o["f"] = fnref(fd);
      o["ln"] = line(x->getOperatorLoc());
      json::Array a;
      unsigned i = 0;
      auto* md = dyn_cast<CXXMethodDecl>(fd);
      if (md && md->isInstance()) {
        o["obj"] = E(x->getArg(0));
        o["virt"] = md->isVirtual();
        i = 1;
      } else if (md) {
        i = 1;  // static operator()
      }
      o["op"] = getOperatorSpelling(x->getOperator());
      for (; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto* md = x->getMethodDecl();
      auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
      if (!md || !me) return unsup(e, "memcall");
      o["k"] = "call";
      o["f"] = fnref(md);
      o["ln"] = line(e->getExprLoc());
      o["obj"] = objExpr(me->getBase(), me->isArrow());
      o["virt"] = md->isVirtual() && !me->hasQualifier();
      json::Array a;
      for (auto* arg : x->arguments()) a.push_back(E(arg));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      json::Array a;
      for (auto* arg : x->arguments()) a.push_back(E(arg));
      o["ln"] = line(e->getExprLoc());
      if (auto* fd = x->getDirectCallee()) {
        o["k"] = "call";
        o["f"] = fnref(fd);
        if (auto bid = fd->getBuiltinID()) o["builtin"] = (int64_t)bid;
      } else {
        o["k"] = "callp";
        o["fn"] = E(x->getCallee());
      }
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return unsup(e, "inherited ctor");
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "ctor";
      o["f"] = fnref(x->getConstructor());
      o["zero"] = x->requiresZeroInitialization();
      o["list"] = x->isListInitialization();
      o["sil"] = x->isStdInitListInitialization();
      o["ln"] = line(e->getExprLoc());
      json::Array a;
      for (auto* arg : x->arguments()) a.push_back(E(arg));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      if (x->isTransparent()) return E(x->getInit(0));
      o["k"] = "init";
      json::Array a;
      for (unsigned i = 0; i < x->getNumInits(); ++i) a.push_back(E(x->getInit(i)));
      o["a"] = std::move(a);
      if (auto* f = x->getArrayFiller()) o["fill"] = E(f);
      if (auto* uf = x->getInitializedFieldInUnion()) o["uf"] = fieldName(uf);
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) {
      o["k"] = "init";
      json::Array a;
      for (auto* i : x->getInitExprs()) a.push_back(E(i));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["at"] = T(x->getAllocatedType());
      if (x->isArray()) o["n"] = x->getArraySize() ? E(*x->getArraySize()) : json::Value(nullptr);
      if (x->getNumPlacementArgs()) return unsup(e, "placement new");
      o["init"] = E(x->getInitializer());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = E(x->getArgument());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      o["e"] = E(x->getSubExpr());
      o["ln"] = line(e->getExprLoc());
      return std::move(o);
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      needRecord(x->getLambdaClass());
      needFn(x->getCallOperator());
      o["f"] = fnref(x->getCallOperator());
      json::Array caps;
      auto init = x->capture_init_begin();
      auto field = x->getLambdaClass()->field_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        co["init"] = E(*init);
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) co["var"] = varId(cast<VarDecl>(c.getCapturedVar()));
        co["byref"] = c.getCaptureKind() == LCK_ByRef;
        caps.push_back(std::move(co));
        ++init;
        ++field;
      }
      o["caps"] = std::move(caps);
      return std::move(o);
    }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "arrcopy";
      o["e"] = E(x->getCommonExpr()->getSourceExpr());
      return std::move(o);
    }
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) return E(x->getSourceExpr());
    }
    if (auto* x = dyn_cast<StmtExpr>(e)) {
      o["k"] = "stmtexpr";
      o["s"] = S(x->getSubStmt());
      return std::move(o);
    }
    if (auto* x = dyn_cast<SourceLocExpr>(e)) {
      if (x->isIntType()) { o["k"] = "int"; o["v"] = std::to_string(line(e->getExprLoc())); }
      else { o["k"] = "str"; o["b"] = json::Array(); }
      return std::move(o);
    }
    if (isa<AtomicExpr>(e)) return unsup(e, "atomic");
    return unsup(e, e->getStmtClassName());
  }
  json::Value unsup(const Stmt* e, const char* what) {
    json::Object o;
    o["k"] = "unsupported";
    o["what"] = what;
    if (auto* x = dyn_cast<Expr>(e)) o["t"] = T(x->getType());
    o["ln"] = line(e->getBeginLoc());
    return std::move(o);
  }
  std::string intStr(llvm::APInt v, QualType t) {
    llvm::SmallString<32> s;
    v.toString(s, 10, t->isSignedIntegerOrEnumerationType());
    return s.str().str();
  }
  json::Value objExpr(const Expr* base, bool arrow) {
    if (!arrow) return E(base);
    json::Object o;
    o["k"] = "un";
    o["op"] = "deref";
    o["vc"] = "l";
    o["t"] = T(base->getType()->getPointeeType());
    o["e"] = E(base);
    o["ln"] = line(base->getExprLoc());
    return std::move(o);
  }
  std::string fieldName(const FieldDecl* fd) {
    if (fd->getIdentifier()) return fd->getName().str();
    return "#" + std::to_string(fd->getFieldIndex());
  }
  json::Value declRef(const ValueDecl* d, const Expr* e, json::Object o) {
    if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
      o["k"] = "int";
      o["v"] = std::to_string(ec->getInitVal().getExtValue());
      o["en"] = ec->getName();
      if (auto* ed = dyn_cast<EnumDecl>(ec->getDeclContext())) needEnum(ed);
      return std::move(o);
    }
    if (auto* fd = dyn_cast<FunctionDecl>(d)) {
      o["k"] = "fnref";
      o["f"] = fnref(fd);
      return std::move(o);
    }
    if (auto* bd = dyn_cast<BindingDecl>(d)) {
      if (auto* hv = bd->getHoldingVar()) return declRef(hv, e, std::move(o));
      return E(bd->getBinding());
    }
    if (auto* vd = dyn_cast<VarDecl>(d)) {
      bool global = vd->hasGlobalStorage();
      if (global) {
        o["k"] = "gref";
        o["g"] = key(vd);
        o["n"] = qname(vd);
        needGlobal(vd);
        return std::move(o);
      }
      o["k"] = "var";
      o["id"] = varId(vd);
      o["n"] = vd->getNameAsString();
      if (auto* dr = dyn_cast<DeclRefExpr>(e))
        if (dr->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      return std::move(o);
    }
    return unsup(e, "declref");
  }
  void needGlobal(const VarDecl* vd) {
    std::string k = key(vd);
    if (!glob_seen_.insert(k).second) return;
    json::Object o;
    o["q"] = qname(vd);
    o["t"] = T(vd->getType());
    o["loc"] = locStr(vd->getLocation());
    o["local"] = vd->isStaticLocal();
    const VarDecl* def = nullptr;
    const Expr* init = vd->getAnyInitializer(def);
    if (init && !init->isValueDependent()) {
      bool done = false;
      if (vd->getType()->isIntegralOrEnumerationType() && (vd->isConstexpr() || vd->getType().isConstQualified())) {
        Expr::EvalResult r;
        if (init->EvaluateAsInt(r, ctx_)) {
          o["cv"] = intStr(r.Val.getInt(), vd->getType());
          done = true;
        }
      }
      if (!done && (inRepo(vd->getLocation()) || vd->isStaticLocal())) o["init"] = E(init);
    }
    globals_[k] = std::move(o);
  }
  json::Value castExpr(const CastExpr* x, json::Object o) {
    switch (x->getCastKind()) {
      case CK_NoOp: {
        // keep the object, forget qualifiers
        return E(x->getSubExpr());
      }
      case CK_FunctionToPointerDecay:
      case CK_BuiltinFnToFnPtr:
        return E(x->getSubExpr());
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
        return E(x->getSubExpr());
      case CK_Dynamic:
        o["k"] = "dyncast";
        o["e"] = E(x->getSubExpr());
        o["ln"] = line(x->getExprLoc());
        return std::move(o);
      default:
        break;
    }
    o["k"] = "cast";
    o["ck"] = x->getCastKindName();
    o["e"] = E(x->getSubExpr());
    return std::move(o);
  }

  // ---- statements -----------------------------------------------------------
  json::Value varDecl(const VarDecl* vd) {
    json::Object o;
    o["id"] = varId(vd);
    o["n"] = vd->getNameAsString();
    o["t"] = T(vd->getType());
    o["ln"] = line(vd->getLocation());
    if (vd->isStaticLocal()) {
      o["static"] = key(vd);
      needGlobal(vd);
    } else {
      o["init"] = E(vd->getInit());
    }
    return std::move(o);
  }
  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      return json::Object{{"k", "expr"}, {"e", E(e)}, {"ln", line(s->getBeginLoc())}};
    }
    json::Object o;
    o["ln"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      json::Array b;
      for (auto* c : x->body()) b.push_back(S(c));
      o["k"] = "blk";
      o["b"] = std::move(b);
      return std::move(o);
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      json::Array v;
      for (auto* d : x->decls()) {
        if (auto* vd = dyn_cast<VarDecl>(d)) {
          if (vd->isStaticDataMember()) continue;
          v.push_back(varDecl(vd));
          if (auto* dd = dyn_cast<DecompositionDecl>(vd))
            for (auto* b : dd->bindings())
              if (auto* hv = b->getHoldingVar()) v.push_back(varDecl(hv));
        }
      }
      o["k"] = "decl";
      o["v"] = std::move(v);
      return std::move(o);
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["var"] = S(x->getConditionVariableDeclStmt());
      if (x->isConstexpr()) {
        Expr::EvalResult r;
        if (x->getCond()->EvaluateAsInt(r, ctx_)) {
          bool b = r.Val.getInt().getBoolValue();
          const Stmt* taken = b ? x->getThen() : x->getElse();
          if (!taken) return json::Object{{"k", "null"}};
          return S(taken);
        }
      }
      o["c"] = E(x->getCond());
      o["th"] = S(x->getThen());
      o["el"] = S(x->getElse());
      return std::move(o);
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariableDeclStmt()) o["var"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["var"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond());
      o["inc"] = E(x->getInc());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      if (x->getInit()) o["init0"] = S(x->getInit());
      o["range"] = S(x->getRangeStmt());
      o["begin"] = S(x->getBeginStmt());
      o["end"] = S(x->getEndStmt());
      o["c"] = E(x->getCond());
      o["inc"] = E(x->getInc());
      o["lv"] = S(x->getLoopVarStmt());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["var"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = E(x->getLHS());
      Expr::EvalResult r;
      if (x->getLHS()->EvaluateAsInt(r, ctx_)) o["cv"] = intStr(r.Val.getInt(), x->getLHS()->getType());
      if (x->getRHS() && x->getRHS()->EvaluateAsInt(r, ctx_)) o["cv2"] = intStr(r.Val.getInt(), x->getRHS()->getType());
      o["s"] = S(x->getSubStmt());
      return std::move(o);
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = S(x->getSubStmt());
      return std::move(o);
    }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return std::move(o); }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return std::move(o); }
    if (isa<NullStmt>(s)) { o["k"] = "null"; return std::move(o); }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      o["e"] = E(x->getRetValue());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = S(x->getTryBlock());
      return std::move(o);
    }
    return unsup(s, s->getStmtClassName());
  }

  void emitFn(const FunctionDecl* fd) {
    const FunctionDecl* def = nullptr;
    if (fd->isDependentContext()) return;
    if (fd->isDeleted()) return;
    fd->hasBody(def);
    if (!def) {
      if (fd->getTemplateInstantiationPattern() == nullptr && !fd->isDefaulted()) return;
      def = fd;
    }
    if (!def->getBody() && !isa<CXXConstructorDecl>(def)) return;
    if (def->isDependentContext()) return;
    if (!emittable(def)) return;
    std::string k = key(fd);
    if (funcs_.count(k)) return;
    json::Object o;
    (void)fnref(fd);
    auto* save = cur_lambda_;
    cur_lambda_ = nullptr;
    if (auto* md = dyn_cast<CXXMethodDecl>(def))
      if (md->getParent()->isLambda()) cur_lambda_ = md->getParent();
    json::Array ps;
    for (auto* p : def->parameters()) {
      json::Object po;
      po["id"] = varId(p);
      po["n"] = p->getNameAsString();
      po["t"] = T(p->getType());
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    o["repo"] = inRepo(def->getLocation());
    o["loc"] = locStr(def->getLocation());
    o["end"] = line(def->getEndLoc());
    if (auto* cd = dyn_cast<CXXConstructorDecl>(def)) {
      json::Array in;
      for (auto* i : cd->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) {
          io["field"] = fieldName(i->getAnyMember());
          if (i->isIndirectMemberInitializer()) {
            json::Array chain;
            for (auto* c : i->getIndirectMember()->chain()) chain.push_back(fieldName(cast<FieldDecl>(c)));
            io["chain"] = std::move(chain);
          }
        }
        else if (i->isBaseInitializer()) io["base"] = T(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = i->isWritten();
        io["e"] = E(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = S(def->getBody());
    cur_lambda_ = save;
    funcs_.emplace(k, std::move(o));
  }

  void emitRec(const CXXRecordDecl* rd) {
    json::Object o;
    std::string k = recKey(rd);
    o["tn"] = qname(rd);
    o["ta"] = templArgs(rd);
    o["loc"] = locStr(rd->getLocation());
    if (rd->isLambda()) o["lambda"] = true;
    if (rd->hasDefinition() && !rd->isDependentContext()) {
      rd = rd->getDefinition();
      bool full = inRepo(rd->getLocation()) || rd->isLambda() ||
                  qname(rd).find("__gnu_cxx::__ops") == 0 || rd->isAggregate();
      o["union"] = rd->isUnion();
      o["poly"] = rd->isPolymorphic();
      o["agg"] = rd->isAggregate();
      if (full) {
        json::Array fs;
        for (auto* f : rd->fields()) {
          json::Object fo;
          fo["n"] = fieldName(f);
          fo["t"] = T(f->getType());
          if (f->isBitField()) fo["bw"] = (int64_t)f->getBitWidthValue(ctx_);
          if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
          fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        if (rd->isLambda()) {
          json::Array caps;
          for (auto& c : rd->captures()) {
            json::Object co;
            if (c.capturesThis()) co["this"] = true;
            else if (c.capturesVariable()) co["var"] = varId(cast<VarDecl>(c.getCapturedVar()));
            caps.push_back(std::move(co));
          }
          o["caps"] = std::move(caps);
        }
      }
      if (inRepo(rd->getLocation()) || rd->isLambda()) {
        json::Object vt;
        for (auto* m : rd->methods()) {
          if (m->isVirtual()) addOverrides(m, m, vt);
        }
        o["vt"] = std::move(vt);
      }
      json::Array bs;
      for (auto& b : rd->bases()) bs.push_back(T(b.getType()));
      o["bases"] = std::move(bs);
    }
    recs_.emplace(k, std::move(o));
  }
  void addOverrides(const CXXMethodDecl* m, const CXXMethodDecl* fin, json::Object& vt) {
    if (isa<CXXDestructorDecl>(m)) return;
    vt[key(m)] = key(fin);
    for (auto* b : m->overridden_methods()) addOverrides(b, fin, vt);
  }

  void drain() {
    while (!fn_work_.empty() || !rec_work_.empty()) {
      if (!fn_work_.empty()) {
        auto* f = fn_work_.front();
        fn_work_.pop_front();
        emitFn(f);
      } else {
        auto* r = rec_work_.front();
        rec_work_.pop_front();
        emitRec(r);
      }
    }
  }
  void write() {
    json::Object root;
    json::Array ts;
    for (auto& t : types_) ts.push_back(std::move(t));
    root["types"] = std::move(ts);
    json::Object f, r, e, g, fi;
    for (auto& p : funcs_) f[p.first] = std::move(p.second);
    for (auto& p : recs_) r[p.first] = std::move(p.second);
    for (auto& p : enums_) e[p.first] = std::move(p.second);
    for (auto& p : globals_) g[p.first] = std::move(p.second);
    for (auto& p : finfo_) fi[p.first] = std::move(p.second);
    root["funcs"] = std::move(f);
    root["recs"] = std::move(r);
    root["enums"] = std::move(e);
    root["globals"] = std::move(g);
    root["finfo"] = std::move(fi);
    root["main"] = mainfile_;
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(root));
  }

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  ASTNameGenerator namer_;
  PrintingPolicy pp_;
  std::string mainfile_;
  std::map<void*, int> tid_;
  std::vector<json::Value> types_;
  std::map<const Decl*, std::string> keys_;
  std::map<const Decl*, int> vid_;
  std::map<std::string, json::Object> enums_, recs_, funcs_, globals_, finfo_;
  std::set<std::string> fninfo_, glob_seen_;
  std::set<const Decl*> fn_seen_, rec_seen_;
  std::deque<const FunctionDecl*> fn_work_;
  std::deque<const CXXRecordDecl*> rec_work_;
  const CXXRecordDecl* cur_lambda_ = nullptr;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(Emitter& em) : em_(em) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* fd) {
    if (fd->isDependentContext()) return true;
    if (!fd->isThisDeclarationADefinition() && !fd->isDefaulted()) return true;
    if (em_.inRepo(fd->getLocation())) em_.needFn(fd);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
    if (rd->isDependentContext() || !rd->isThisDeclarationADefinition()) return true;
    if (em_.inRepo(rd->getLocation())) em_.needRecord(rd);
    return true;
  }
  bool VisitVarDecl(VarDecl* vd) {
    if (vd->hasGlobalStorage() && !vd->getDeclContext()->isDependentContext() &&
        em_.inRepo(vd->getLocation()) && !isa<ParmVarDecl>(vd) && !vd->getType()->isDependentType() && !vd->isTemplated())
      em_.needGlobal(vd);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* ed) {
    if (em_.inRepo(ed->getLocation()) && !ed->isDependentContext()) em_.needEnum(ed);
    return true;
  }
 private:
  Emitter& em_;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Emitter em(ctx);
    // Only look into top-level declarations located in the repository, plus
    // instantiations of its templates (which the visitor reaches through them).
    Visitor v(em);
    for (auto* d : ctx.getTranslationUnitDecl()->decls()) {
      if (em.inRepo(d->getLocation())) v.TraverseDecl(d);
    }
    em.drain();
    em.write();
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
class Factory : public tooling::FrontendActionFactory {
 public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}  // namespace

// usage: cxxfe OUT.json PREFIX[:PREFIX...] SOURCE -- compiler args
int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  std::stringstream ss(argv[2]);
  std::string p;
  while (std::getline(ss, p, ':')) g_prefixes.push_back(p);
  std::string src = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  Factory f;
  return tool.run(&f);
}
