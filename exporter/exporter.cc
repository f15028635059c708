/* AST exporter: dumps the resolved program (after overload resolution, template
   instantiation and implicit conversion) of every function with a body in the
   repository under analysis as compact JSON, for the abstract interpreter.

   usage: exporter SOURCE_ROOT OUT.json FILE -- clang flags...
*/
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/ASTUnit.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
#include <fstream>
#include <sstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
using std::string;

static string g_root;

struct Exporter {
	ASTContext& C;
	SourceManager& SM;
	std::unique_ptr<MangleContext> MC;
	Object functions;   /* key -> function */
	Object records;     /* key -> record */
	Object enums;
	Object globals;
	Array types;
	std::map<string, int> type_ids;
	std::map<Decl const*, int> var_ids;
	std::set<Decl const*> seen_fn;
	std::set<Decl const*> seen_rec;
	std::set<Decl const*> seen_glob;
	std::deque<FunctionDecl const*> queue;
	string main_file;
	int next_var = 1;
	std::map<string, int> unsupported;

	Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()) {
		MC.reset(C.createMangleContext());
		if (auto fe = SM.getFileEntryRefForID(SM.getMainFileID())) {
			main_file = shorten(fe->getName().str());
		}
	}

	static string norm(string s) {
		llvm::SmallString<256> p(s);
		llvm::sys::fs::make_absolute(p);
		llvm::sys::path::remove_dots(p, true);
		return string(p.str());
	}

	string shorten(string s) {
		s = norm(s);
		if (s.compare(0, g_root.size(), g_root) == 0) {
			return s.substr(g_root.size() + 1);
		}
		return s;
	}

	bool in_root(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		if (l.isInvalid()) return false;
		auto f = SM.getFilename(l);
		if (f.empty()) return false;
		string s = norm(f.str());
		return s.compare(0, g_root.size() + 1, g_root + "/") == 0;
	}

	string loc(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		if (l.isInvalid()) return "";
		return shorten(SM.getFilename(l).str()) + ":" + std::to_string(SM.getExpansionLineNumber(l));
	}

	string loccol(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		return loc(l) + ":" + std::to_string(SM.getExpansionColumnNumber(l));
	}

	/* qualified name, without template arguments and inline namespaces */
	string qname(NamedDecl const* d) {
		std::vector<string> parts;
		auto one = [&](NamedDecl const* n) -> string {
			if (auto c = dyn_cast<CXXConstructorDecl>(n)) { return one_record(c->getParent()); }
			if (isa<CXXDestructorDecl>(n)) return "~" + one_record(cast<CXXDestructorDecl>(n)->getParent());
			if (isa<CXXConversionDecl>(n)) return "operator conv";
			if (auto r = dyn_cast<CXXRecordDecl>(n)) { return one_record(r); }
			return n->getNameAsString();
		};
		parts.push_back(one(d));
		for (DeclContext const* dc = d->getDeclContext(); dc; dc = dc->getParent()) {
			if (auto ns = dyn_cast<NamespaceDecl>(dc)) {
				if (ns->isInline()) continue;
				if (ns->isAnonymousNamespace()) { parts.push_back("(anon)"); continue; }
				parts.push_back(ns->getNameAsString());
			} else if (auto r = dyn_cast<CXXRecordDecl>(dc)) {
				parts.push_back(one_record(r));
			} else if (auto f = dyn_cast<FunctionDecl>(dc)) {
				parts.push_back(one(f) + "()");
			} else if (auto e = dyn_cast<EnumDecl>(dc)) {
				parts.push_back(e->getNameAsString());
			}
		}
		string s;
		for (auto i = parts.rbegin(); i != parts.rend(); ++i) {
			if (!s.empty()) s += "::";
			s += *i;
		}
		return s;
	}

	string one_record(CXXRecordDecl const* r) {
		if (r->isLambda()) return "(lambda)";
		return r->getNameAsString();
	}

	bool internal(NamedDecl const* d) {
		return !d->isExternallyVisible();
	}

	string fkey(FunctionDecl const* f) {
		f = f->getCanonicalDecl();
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->getParent()->isLambda()) {
				string k = "lambda@" + loccol(m->getParent()->getBeginLoc());
				/* the lambda may be inside a template: add the enclosing function */
				if (auto ef = dyn_cast_or_null<FunctionDecl>(m->getParent()->getParentFunctionOrMethod())) {
					k += "@" + fkey(ef);
				}
				if (!isa<CXXConversionDecl>(m) && m->getOverloadedOperator() == OO_Call) {
					return k;
				}
				return k + "!" + m->getNameAsString();
			}
		}
		string s;
		llvm::raw_string_ostream os(s);
		if (isa<CXXConstructorDecl>(f)) {
			MC->mangleName(GlobalDecl(cast<CXXConstructorDecl>(f), Ctor_Complete), os);
		} else if (isa<CXXDestructorDecl>(f)) {
			MC->mangleName(GlobalDecl(cast<CXXDestructorDecl>(f), Dtor_Complete), os);
		} else if (MC->shouldMangleDeclName(f)) {
			MC->mangleName(GlobalDecl(f), os);
		} else {
			os << f->getNameAsString();
		}
		os.flush();
		if (internal(f)) s += "@" + main_file;
		return s;
	}

	/* ---- types ---- */
	int type(QualType t) {
		QualType ct = t.getCanonicalType();
		PrintingPolicy P(C.getLangOpts());
		P.SuppressTagKeyword = true;
		string name = ct.getAsString(P);
		/* local types in different functions print alike */
		if (auto tt = ct->getAs<TagType>()) {
			if (tt->getDecl()->getParentFunctionOrMethod() || tt->getDecl()->getNameAsString().empty()) {
				name += "@" + loccol(tt->getDecl()->getBeginLoc());
			}
		}
		auto it = type_ids.find(name);
		if (it != type_ids.end()) return it->second;
		int id = types.size();
		type_ids[name] = id;
		types.push_back(nullptr);
		Object o;
		o["s"] = name;
		bool c = ct.isConstQualified();
		if (c) o["const"] = 1;
		Type const* ty = ct.getTypePtr();
		if (ty->isBooleanType()) {
			o["k"] = "bool";
		} else if (auto et = dyn_cast<EnumType>(ty)) {
			o["k"] = "enum";
			o["n"] = enum_key(et->getDecl());
			add_enum(et->getDecl());
		} else if (ty->isNullPtrType()) {
			o["k"] = "nullptr";
		} else if (ty->isIntegerType()) {
			o["k"] = "int";
			o["w"] = int64_t(C.getTypeSize(ct));
			o["u"] = ty->isUnsignedIntegerType() ? 1 : 0;
			if (ty->isAnyCharacterType()) o["ch"] = 1;
		} else if (ty->isRealFloatingType()) {
			o["k"] = "float";
			o["w"] = int64_t(C.getTypeSize(ct));
		} else if (ty->isVoidType()) {
			o["k"] = "void";
		} else if (ty->isReferenceType()) {
			o["k"] = "ref";
			o["rv"] = ty->isRValueReferenceType() ? 1 : 0;
			o["to"] = type(ty->getPointeeType());
		} else if (ty->isMemberPointerType()) {
			o["k"] = "memptr";
		} else if (ty->isPointerType()) {
			o["k"] = "ptr";
			o["to"] = type(ty->getPointeeType());
		} else if (auto at = C.getAsConstantArrayType(ct)) {
			o["k"] = "arr";
			o["to"] = type(at->getElementType());
			o["size"] = int64_t(at->getSize().getZExtValue());
		} else if (auto at = C.getAsArrayType(ct)) {
			o["k"] = "arr";
			o["to"] = type(at->getElementType());
		} else if (auto rt = dyn_cast<RecordType>(ty)) {
			auto rd = dyn_cast<CXXRecordDecl>(rt->getDecl());
			o["k"] = "rec";
			o["q"] = rd ? qname(rd) : rt->getDecl()->getNameAsString();
			if (rd) {
				o["n"] = rec_key(rd);
				if (auto spec = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
					Array a;
					add_targs(a, spec->getTemplateArgs().asArray());
					o["args"] = std::move(a);
				}
				if (in_root(rd->getLocation())) {
					add_record(rd);
				}
			}
		} else if (ty->isFunctionType()) {
			o["k"] = "fn";
		} else {
			o["k"] = "other";
		}
		types[id] = std::move(o);
		return id;
	}

	void add_targs(Array& a, llvm::ArrayRef<TemplateArgument> args) {
		for (auto const& t: args) {
			if (t.getKind() == TemplateArgument::Type) {
				a.push_back(type(t.getAsType()));
			} else if (t.getKind() == TemplateArgument::Integral) {
				a.push_back(Object{{"i", t.getAsIntegral().getExtValue()}});
			} else if (t.getKind() == TemplateArgument::Pack) {
				add_targs(a, t.pack_elements());
			} else {
				a.push_back(nullptr);
			}
		}
	}

	string enum_key(EnumDecl const* e) {
		if (e->getNameAsString().empty() || e->getParentFunctionOrMethod()) {
			return qname(e) + "@" + loccol(e->getBeginLoc());
		}
		return qname(e);
	}

	void add_enum(EnumDecl const* e) {
		if (e->getDefinition()) e = e->getDefinition();
		string k = enum_key(e);
		if (enums.get(k)) return;
		Object o;
		Array a;
		for (auto c: e->enumerators()) {
			a.push_back(Array{c->getNameAsString(), c->getInitVal().getExtValue()});
		}
		o["values"] = std::move(a);
		o["loc"] = loc(e->getLocation());
		o["repo"] = in_root(e->getLocation()) ? 1 : 0;
		enums[k] = std::move(o);
	}

	string rec_key(CXXRecordDecl const* r) {
		if (r->isLambda()) return "lambda@" + loccol(r->getBeginLoc());
		PrintingPolicy P(C.getLangOpts());
		P.SuppressTagKeyword = true;
		string s = C.getRecordType(r).getCanonicalType().getAsString(P);
		if (r->getParentFunctionOrMethod() || r->getNameAsString().empty()) s += "@" + loccol(r->getBeginLoc());
		return s;
	}

	void add_record(CXXRecordDecl const* r) {
		r = r->getDefinition();
		if (!r || seen_rec.count(r) || r->isDependentType()) return;
		seen_rec.insert(r);
		string k = rec_key(r);
		Object o;
		o["q"] = qname(r);
		o["loc"] = loc(r->getLocation());
		if (r->isLambda()) o["lambda"] = 1;
		if (r->isUnion()) o["union"] = 1;
		Array bases;
		for (auto const& b: r->bases()) {
			bases.push_back(type(b.getType()));
		}
		o["bases"] = std::move(bases);
		Array fields;
		for (auto f: r->fields()) {
			Object fo;
			fo["name"] = f->getNameAsString();
			fo["type"] = type(f->getType());
			if (f->isMutable()) fo["mutable"] = 1;
			if (f->hasInClassInitializer() && f->getInClassInitializer()) {
				fo["init"] = expr(f->getInClassInitializer());
			}
			fields.push_back(std::move(fo));
		}
		o["fields"] = std::move(fields);
		Array methods;
		for (auto m: r->methods()) {
			Object mo;
			mo["name"] = m->getNameAsString();
			mo["key"] = fkey(m);
			if (m->isVirtual()) mo["virtual"] = 1;
			if (m->isPureVirtual()) mo["pure"] = 1;
			if (m->isConst()) mo["const"] = 1;
			mo["access"] = int(m->getAccess());
			if (m->isImplicit()) mo["implicit"] = 1;
			if (m->isDeleted()) mo["deleted"] = 1;
			Array ov;
			for (auto x: m->overridden_methods()) ov.push_back(fkey(x));
			if (!ov.empty()) mo["over"] = std::move(ov);
			if (auto c = dyn_cast<CXXConstructorDecl>(m)) {
				mo["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
				if (c->isImplicit() && c->isDefaultConstructor()) { /* may have no body if not used */ }
			}
			if (isa<CXXDestructorDecl>(m)) mo["dtor"] = 1;
			if (m->isCopyAssignmentOperator()) mo["assign"] = "copy";
			if (m->isMoveAssignmentOperator()) mo["assign"] = "move";
			if (m->isUserProvided()) mo["user"] = 1;
			methods.push_back(std::move(mo));
			enqueue(m);
		}
		o["methods"] = std::move(methods);
		o["trivial_dtor"] = r->hasTrivialDestructor() ? 1 : 0;
		records[k] = std::move(o);
	}

	void enqueue(FunctionDecl const* f) {
		if (!f) return;
		FunctionDecl const* def = nullptr;
		if (f->isDependentContext()) return;
		if (!f->hasBody(def)) {
			def = f;
			if (f->isImplicit() || f->isDefaulted()) return;
			return;
		}
		if (!in_root(def->getLocation())) return;
		if (seen_fn.count(def->getCanonicalDecl())) return;
		seen_fn.insert(def->getCanonicalDecl());
		queue.push_back(def);
	}

	int var(VarDecl const* v) {
		auto c = v->getCanonicalDecl();
		auto it = var_ids.find(c);
		if (it != var_ids.end()) return it->second;
		return var_ids[c] = next_var++;
	}

	string gkey(VarDecl const* v) {
		v = v->getCanonicalDecl();
		if (v->isStaticLocal()) {
			auto f = dyn_cast_or_null<FunctionDecl>(v->getParentFunctionOrMethod());
			return "static:" + (f ? fkey(f) : string("?")) + ":" + v->getNameAsString() + ":" + std::to_string(SM.getExpansionLineNumber(v->getLocation()));
		}
		string s = qname(v);
		if (internal(v)) s += "@" + main_file;
		return s;
	}

	void add_global(VarDecl const* v) {
		v = v->getCanonicalDecl();
		if (seen_glob.count(v)) return;
		seen_glob.insert(v);
		string k = gkey(v);
		Object o;
		VarDecl const* def = v->getDefinition(C);
		VarDecl const* d = def ? def : v;
		o["name"] = v->getNameAsString();
		o["q"] = qname(v);
		o["type"] = type(d->getType());
		o["loc"] = loc(d->getLocation());
		o["repo"] = in_root(d->getLocation()) ? 1 : 0;
		o["def"] = def ? 1 : 0;
		o["const"] = d->getType().isConstQualified() || (d->getType()->isArrayType() && C.getBaseElementType(d->getType()).isConstQualified()) ? 1 : 0;
		if (v->isStaticLocal()) {
			o["static_local"] = 1;
			o["tls"] = 0;
		}
		if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = 1;
		if (in_root(d->getLocation())) {
			if (auto init = d->getAnyInitializer()) o["init"] = expr(init);
		}
		globals[k] = std::move(o);
	}

	/* ---- functions ---- */
	Object fnref(FunctionDecl const* f) {
		Object o;
		o["key"] = fkey(f);
		o["q"] = qname(f);
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = rec_key(m->getParent());
			o["clsq"] = qname(m->getParent());
			if (m->isVirtual()) o["virtual"] = 1;
			if (m->isStatic()) o["static"] = 1;
			if (m->isConst()) o["const"] = 1;
			if (auto c = dyn_cast<CXXConstructorDecl>(m)) {
				o["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
				if (in_root(m->getParent()->getLocation())) add_record(m->getParent());
			}
			if (m->isImplicit() || (m->isDefaulted() && !m->isUserProvided())) o["implicit"] = 1;
			if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["assign"] = 1;
		}
		if (auto ta = f->getTemplateSpecializationArgs()) {
			Array a;
			add_targs(a, ta->asArray());
			o["targs"] = std::move(a);
		}
		o["ret"] = type(f->getReturnType());
		Array ps;
		for (auto p: f->parameters()) ps.push_back(type(p->getType()));
		o["pt"] = std::move(ps);
		if (f->isVariadic()) o["va"] = 1;
		if (auto fpt = f->getType()->getAs<FunctionProtoType>()) {
			if (fpt->getExceptionSpecType() != EST_Unevaluated && fpt->getExceptionSpecType() != EST_Uninstantiated && fpt->isNothrow()) o["noexcept"] = 1;
		}
		o["loc"] = loc(f->getLocation());
		enqueue(f);
		return o;
	}

	/* function references are interned */
	std::map<FunctionDecl const*, int> fnref_ids;
	Array fnrefs;
	int fn(FunctionDecl const* f) {
		auto c = f->getCanonicalDecl();
		auto it = fnref_ids.find(c);
		if (it != fnref_ids.end()) return it->second;
		int id = fnrefs.size();
		fnref_ids[c] = id;
		fnrefs.push_back(nullptr);
		fnrefs[id] = fnref(f);
		return id;
	}

	void export_function(FunctionDecl const* f) {
		string k = fkey(f);
		if (functions.get(k)) return;
		Object o;
		o["ref"] = fn(f);
		o["loc"] = loc(f->getLocation());
		o["file"] = shorten(SM.getFilename(SM.getExpansionLoc(f->getLocation())).str());
		o["end"] = loc(f->getEndLoc());
		Array ps;
		for (auto p: f->parameters()) {
			ps.push_back(Array{var(p), p->getNameAsString(), type(p->getType())});
		}
		o["params"] = std::move(ps);
		o["ret"] = type(f->getReturnType());
		if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
			Array inits;
			for (auto i: c->inits()) {
				Object io;
				if (i->isBaseInitializer()) {
					io["base"] = type(QualType(i->getBaseClass(), 0));
				} else if (i->isDelegatingInitializer()) {
					io["deleg"] = 1;
				} else if (i->isAnyMemberInitializer()) {
					io["field"] = i->getAnyMember()->getNameAsString();
					io["ft"] = type(i->getAnyMember()->getType());
				}
				io["e"] = expr(i->getInit());
				io["l"] = loc(i->getSourceLocation());
				inits.push_back(std::move(io));
			}
			o["inits"] = std::move(inits);
		}
		if (internal(f)) o["internal"] = 1;
		if (auto ft = f->getType()->getAs<FunctionProtoType>()) {
			auto es = ft->getExceptionSpecType();
			bool const can = es == EST_NoexceptFalse || es == EST_MSAny || es == EST_Dynamic;
			if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone || es == EST_NoThrow || (isa<CXXDestructorDecl>(f) && !can)) o["nothrow"] = 1;
		}
		o["body"] = stmt(f->getBody());
		functions[k] = std::move(o);
	}

	void drain() {
		while (!queue.empty()) {
			auto f = queue.front();
			queue.pop_front();
			export_function(f);
		}
	}

	/* ---- statements ---- */
	Value stmt(Stmt const* s) {
		if (!s) return nullptr;
		if (auto e = dyn_cast<Expr>(s)) {
			return Object{{"s", "expr"}, {"e", expr(e)}, {"l", loc(s->getBeginLoc())}};
		}
		Object o;
		o["l"] = loc(s->getBeginLoc());
		if (auto x = dyn_cast<CompoundStmt>(s)) {
			o["s"] = "block";
			Array a;
			for (auto c: x->body()) a.push_back(stmt(c));
			o["b"] = std::move(a);
			o["el"] = loc(x->getEndLoc());
		} else if (auto x = dyn_cast<IfStmt>(s)) {
			o["s"] = "if";
			if (x->getInit()) o["init"] = stmt(x->getInit());
			if (x->getConditionVariable()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
			o["c"] = expr(x->getCond());
			o["t"] = stmt(x->getThen());
			if (x->getElse()) o["f"] = stmt(x->getElse());
		} else if (auto x = dyn_cast<WhileStmt>(s)) {
			o["s"] = "while";
			if (x->getConditionVariable()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
		} else if (auto x = dyn_cast<DoStmt>(s)) {
			o["s"] = "do";
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
		} else if (auto x = dyn_cast<ForStmt>(s)) {
			o["s"] = "for";
			o["i"] = stmt(x->getInit());
			if (x->getConditionVariable()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
			if (x->getCond()) o["c"] = expr(x->getCond());
			if (x->getInc()) o["inc"] = expr(x->getInc());
			o["b"] = stmt(x->getBody());
		} else if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
			o["s"] = "forrange";
			if (x->getInit()) o["init"] = stmt(x->getInit());
			o["r"] = stmt(x->getRangeStmt());
			o["bs"] = stmt(x->getBeginStmt());
			o["es"] = stmt(x->getEndStmt());
			o["c"] = expr(x->getCond());
			o["inc"] = expr(x->getInc());
			o["lv"] = stmt(x->getLoopVarStmt());
			o["b"] = stmt(x->getBody());
		} else if (auto x = dyn_cast<SwitchStmt>(s)) {
			o["s"] = "switch";
			if (x->getInit()) o["init"] = stmt(x->getInit());
			if (x->getConditionVariable()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
		} else if (auto x = dyn_cast<CaseStmt>(s)) {
			o["s"] = "case";
			Expr::EvalResult r;
			if (x->getLHS()->EvaluateAsInt(r, C)) o["lo"] = r.Val.getInt().getExtValue();
			if (x->getRHS() && x->getRHS()->EvaluateAsInt(r, C)) o["hi"] = r.Val.getInt().getExtValue();
			o["b"] = stmt(x->getSubStmt());
		} else if (auto x = dyn_cast<DefaultStmt>(s)) {
			o["s"] = "default";
			o["b"] = stmt(x->getSubStmt());
		} else if (isa<BreakStmt>(s)) {
			o["s"] = "break";
		} else if (isa<ContinueStmt>(s)) {
			o["s"] = "continue";
		} else if (isa<NullStmt>(s)) {
			o["s"] = "null";
		} else if (auto x = dyn_cast<ReturnStmt>(s)) {
			o["s"] = "return";
			if (x->getRetValue()) o["e"] = expr(x->getRetValue());
		} else if (auto x = dyn_cast<DeclStmt>(s)) {
			o["s"] = "decl";
			Array a;
			for (auto d: x->decls()) {
				if (auto v = dyn_cast<VarDecl>(d)) {
					Object vo;
					vo["name"] = v->getNameAsString();
					vo["type"] = type(v->getType());
					vo["l"] = loc(v->getLocation());
					if (v->isStaticLocal()) {
						add_global(v);
						vo["static"] = gkey(v);
					} else if (v->hasExternalStorage()) {
						continue;
					} else {
						vo["id"] = var(v);
						if (v->getInit()) vo["init"] = expr(v->getInit());
					}
					a.push_back(std::move(vo));
				}
			}
			o["d"] = std::move(a);
		} else if (auto x = dyn_cast<CXXTryStmt>(s)) {
			o["s"] = "try";
			o["b"] = stmt(x->getTryBlock());
			Array hs;
			for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
				auto h = x->getHandler(i);
				Object ho;
				if (h->getExceptionDecl()) {
					ho["type"] = type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
					ho["id"] = var(h->getExceptionDecl());
				}
				ho["b"] = stmt(h->getHandlerBlock());
				hs.push_back(std::move(ho));
			}
			o["h"] = std::move(hs);
		} else if (auto x = dyn_cast<AttributedStmt>(s)) {
			return stmt(x->getSubStmt());
		} else if (auto x = dyn_cast<LabelStmt>(s)) {
			o["s"] = "label";
			o["n"] = x->getName();
			o["b"] = stmt(x->getSubStmt());
		} else if (auto x = dyn_cast<GotoStmt>(s)) {
			o["s"] = "goto";
			o["n"] = x->getLabel()->getNameAsString();
		} else {
			o["s"] = "unsupported";
			o["cls"] = s->getStmtClassName();
			unsupported[s->getStmtClassName()]++;
		}
		return o;
	}

	/* ---- expressions ---- */
	Value expr(Expr const* e) {
		if (!e) return nullptr;
		/* transparent wrappers */
		if (auto x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
		if (auto x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
		if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
		if (auto x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
		if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
		if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
		if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
		if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) {
			return Object{{"e", "stdinit"}, {"a", expr(x->getSubExpr())}, {"t", type(e->getType())}, {"l", loc(e->getBeginLoc())}};
		}
		if (auto x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());

		Object o;
		o["t"] = type(e->getType());
		if (e->isGLValue()) o["lv"] = 1;
		o["l"] = loc(e->getExprLoc().isValid() ? e->getExprLoc() : e->getBeginLoc());

		if (auto x = dyn_cast<IntegerLiteral>(e)) {
			o["e"] = "int";
			o["v"] = x->getType()->isSignedIntegerType() ? x->getValue().getSExtValue() : int64_t(x->getValue().getZExtValue());
		} else if (auto x = dyn_cast<CharacterLiteral>(e)) {
			o["e"] = "int";
			int64_t v = x->getValue();
			if (x->getKind() == CharacterLiteralKind::Ascii && v > 127) v = int64_t(int8_t(v));
			o["v"] = v;
		} else if (auto x = dyn_cast<FloatingLiteral>(e)) {
			o["e"] = "float";
			/* floating point arithmetic is exact in the analysis, so take the number that was written */
			double v = x->getValueAsApproximateDouble();
			if (&x->getSemantics() == &llvm::APFloat::IEEEsingle()) {
				char buffer[64];
				for (int n = 6; n <= 9; ++n) {
					snprintf(buffer, sizeof(buffer), "%.*g", n, v);
					if (strtof(buffer, nullptr) == float(v)) break;
				}
				v = strtod(buffer, nullptr);
			}
			o["v"] = v;
		} else if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) {
			o["e"] = "bool";
			o["v"] = x->getValue() ? 1 : 0;
		} else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
			o["e"] = "null";
		} else if (auto x = dyn_cast<clang::StringLiteral>(e)) {
			o["e"] = "str";
			Array a;
			for (unsigned i = 0; i < x->getLength(); ++i) a.push_back(int64_t(x->getCodeUnit(i)));
			o["v"] = std::move(a);
			o["cw"] = x->getCharByteWidth();
		} else if (auto x = dyn_cast<PredefinedExpr>(e)) {
			if (x->getFunctionName()) return expr(x->getFunctionName());
			o["e"] = "unsupported";
		} else if (auto x = dyn_cast<CXXThisExpr>(e)) {
			o["e"] = "this";
		} else if (auto x = dyn_cast<DeclRefExpr>(e)) {
			auto d = x->getDecl();
			if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
				o["e"] = "int";
				o["v"] = ec->getInitVal().getExtValue();
				o["en"] = ec->getNameAsString();
			} else if (auto v = dyn_cast<VarDecl>(d)) {
				if (v->hasGlobalStorage()) {
					o["e"] = "global";
					o["k"] = gkey(v);
					add_global(v);
				} else {
					o["e"] = "var";
					o["id"] = var(v);
					o["n"] = v->getNameAsString();
				}
				if (v->getType()->isReferenceType()) o["isref"] = 1;
				if (x->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
			} else if (auto f = dyn_cast<FunctionDecl>(d)) {
				o["e"] = "fn";
				o["f"] = fn(f);
			} else {
				o["e"] = "unsupported";
				o["cls"] = "DeclRef";
				unsupported["DeclRef"]++;
			}
		} else if (auto x = dyn_cast<MemberExpr>(e)) {
			auto d = x->getMemberDecl();
			if (auto f = dyn_cast<FieldDecl>(d)) {
				o["e"] = "field";
				o["n"] = f->getNameAsString();
				o["rec"] = qname(f->getParent());
				o["b"] = expr(x->getBase());
				if (x->isArrow()) o["arrow"] = 1;
				if (f->getType()->isReferenceType()) o["isref"] = 1;
			} else if (auto v = dyn_cast<VarDecl>(d)) {
				o["e"] = "global";
				o["k"] = gkey(v);
				add_global(v);
			} else if (auto m = dyn_cast<CXXMethodDecl>(d)) {
				o["e"] = "fn";
				o["f"] = fn(m);
			} else if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
				o["e"] = "int";
				o["v"] = ec->getInitVal().getExtValue();
			} else {
				o["e"] = "unsupported";
				o["cls"] = "Member";
			}
		} else if (auto x = dyn_cast<UnaryOperator>(e)) {
			o["e"] = "un";
			o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
			if (x->isPostfix()) o["post"] = 1;
			o["a"] = expr(x->getSubExpr());
		} else if (auto x = dyn_cast<CompoundAssignOperator>(e)) {
			o["e"] = "cassign";
			o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
			o["a"] = expr(x->getLHS());
			o["b"] = expr(x->getRHS());
			o["ct"] = type(x->getComputationResultType());
			o["clt"] = type(x->getComputationLHSType());
		} else if (auto x = dyn_cast<BinaryOperator>(e)) {
			o["e"] = "bin";
			o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
			o["a"] = expr(x->getLHS());
			o["b"] = expr(x->getRHS());
		} else if (auto x = dyn_cast<ConditionalOperator>(e)) {
			o["e"] = "cond";
			o["c"] = expr(x->getCond());
			o["a"] = expr(x->getTrueExpr());
			o["b"] = expr(x->getFalseExpr());
		} else if (auto x = dyn_cast<BinaryConditionalOperator>(e)) {
			o["e"] = "cond";
			o["c"] = expr(x->getCond());
			o["a"] = expr(x->getTrueExpr());
			o["b"] = expr(x->getFalseExpr());
		} else if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
			auto f = x->getDirectCallee();
			o["e"] = "call";
			Array a;
			for (auto y: x->arguments()) a.push_back(expr(y));
			if (f) {
				o["f"] = fn(f);
				auto m = dyn_cast<CXXMethodDecl>(f);
				if (m && !m->isStatic()) {
					o["obj"] = std::move(a[0]);
					Array rest;
					for (size_t i = 1; i < a.size(); ++i) rest.push_back(std::move(a[i]));
					a = std::move(rest);
				}
			} else {
				o["e"] = "unsupported";
				o["cls"] = "OpCallNoCallee";
			}
			o["a"] = std::move(a);
			o["opcall"] = 1;
		} else if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
			o["e"] = "call";
			Array a;
			for (auto y: x->arguments()) a.push_back(expr(y));
			o["a"] = std::move(a);
			if (auto f = x->getMethodDecl()) {
				o["f"] = fn(f);
				auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
				o["obj"] = expr(x->getImplicitObjectArgument());
				if (x->getImplicitObjectArgument()->getType()->isPointerType()) o["objptr"] = 1;
				if (me && me->hasQualifier()) o["novirt"] = 1;
			} else {
				o["fe"] = expr(x->getCallee());
			}
		} else if (auto x = dyn_cast<CallExpr>(e)) {
			o["e"] = "call";
			Array a;
			for (auto y: x->arguments()) a.push_back(expr(y));
			o["a"] = std::move(a);
			if (auto f = x->getDirectCallee()) {
				o["f"] = fn(f);
			} else {
				o["fe"] = expr(x->getCallee());
			}
		} else if (auto x = dyn_cast<CXXConstructExpr>(e)) {
			o["e"] = "ctor";
			o["f"] = fn(x->getConstructor());
			if (x->isElidable()) o["elide"] = 1;
			if (x->requiresZeroInitialization()) o["zero"] = 1;
			Array a;
			for (auto y: x->arguments()) a.push_back(expr(y));
			o["a"] = std::move(a);
			if (x->isListInitialization()) o["list"] = 1;
		} else if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
			o["e"] = "unsupported";
			o["cls"] = "InheritedCtor";
			(void)x;
		} else if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) {
			o["e"] = "mat";
			o["a"] = expr(x->getSubExpr());
		} else if (auto x = dyn_cast<CXXFunctionalCastExpr>(e)) {
			return cast_expr(x, std::move(o));
		} else if (auto x = dyn_cast<CastExpr>(e)) {
			return cast_expr(x, std::move(o));
		} else if (auto x = dyn_cast<CXXNewExpr>(e)) {
			o["e"] = "new";
			o["at"] = type(x->getAllocatedType());
			if (x->isArray()) {
				if (auto sz = x->getArraySize()) o["n"] = expr(*sz);
				o["arr"] = 1;
			}
			if (x->getInitializer()) o["i"] = expr(x->getInitializer());
			if (x->getNumPlacementArgs()) o["placement"] = 1;
		} else if (auto x = dyn_cast<CXXDeleteExpr>(e)) {
			o["e"] = "delete";
			o["a"] = expr(x->getArgument());
			if (x->isArrayForm()) o["arr"] = 1;
		} else if (auto x = dyn_cast<ArraySubscriptExpr>(e)) {
			o["e"] = "index";
			o["a"] = expr(x->getBase());
			o["b"] = expr(x->getIdx());
		} else if (auto x = dyn_cast<InitListExpr>(e)) {
			if (x->isTransparent() || (x->isSemanticForm() && x->getNumInits() == 1 && x->isStringLiteralInit())) {
				return expr(x->getInit(0));
			}
			if (auto s = x->getSemanticForm()) x = s;
			o["e"] = "initlist";
			Array a;
			for (auto y: x->inits()) a.push_back(expr(y));
			o["a"] = std::move(a);
			if (x->hasArrayFiller() && x->getArrayFiller()) o["fill"] = expr(x->getArrayFiller());
		} else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
			o["e"] = "zeroinit";
		} else if (auto x = dyn_cast<LambdaExpr>(e)) {
			o["e"] = "lambda";
			o["f"] = fn(x->getCallOperator());
			Array caps;
			auto it = x->capture_init_begin();
			for (auto const& c: x->captures()) {
				Object co;
				if (c.capturesThis()) {
					co["this"] = 1;
				} else if (c.capturesVariable()) {
					auto cv = c.getCapturedVar();
					if (auto v = dyn_cast<VarDecl>(cv)) {
						co["id"] = var(v);
						co["n"] = v->getNameAsString();
					}
					co["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
					co["init"] = expr(*it);
				}
				caps.push_back(std::move(co));
				++it;
			}
			o["caps"] = std::move(caps);
			if (x->isMutable()) o["mutable"] = 1;
			enqueue(x->getCallOperator());
		} else if (auto x = dyn_cast<CXXThrowExpr>(e)) {
			o["e"] = "throw";
			if (x->getSubExpr()) o["a"] = expr(x->getSubExpr());
		} else if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
			Expr::EvalResult r;
			o["e"] = "int";
			if (x->EvaluateAsInt(r, C)) o["v"] = r.Val.getInt().getExtValue();
		} else if (auto x = dyn_cast<CXXPseudoDestructorExpr>(e)) {
			o["e"] = "zeroinit";
			(void)x;
		} else if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) {
			o["e"] = "arrcopy";
			o["a"] = expr(x->getCommonExpr()->getSourceExpr());
		} else if (auto x = dyn_cast<CXXNoexceptExpr>(e)) {
			o["e"] = "bool";
			o["v"] = x->getValue() ? 1 : 0;
		} else if (auto x = dyn_cast<TypeTraitExpr>(e)) {
			o["e"] = "bool";
			o["v"] = x->getValue() ? 1 : 0;
		} else if (auto x = dyn_cast<CXXTypeidExpr>(e)) {
			o["e"] = "unsupported";
			o["cls"] = "typeid";
			(void)x;
		} else {
			Expr::EvalResult r;
			if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, C)) {
				o["e"] = "int";
				o["v"] = r.Val.getInt().getExtValue();
			} else {
				o["e"] = "unsupported";
				o["cls"] = e->getStmtClassName();
				unsupported[e->getStmtClassName()]++;
			}
		}
		return o;
	}

	Value cast_expr(CastExpr const* x, Object o) {
		switch (x->getCastKind()) {
		case CK_NoOp:
		case CK_ConstructorConversion:
		case CK_UserDefinedConversion:
			return expr(x->getSubExpr());
		case CK_FunctionToPointerDecay:
		case CK_BuiltinFnToFnPtr:
			return expr(x->getSubExpr());
		default:
			break;
		}
		o["e"] = "cast";
		o["k"] = x->getCastKindName();
		o["a"] = expr(x->getSubExpr());
		o["st"] = type(x->getSubExpr()->getType());
		if (!isa<ImplicitCastExpr>(x)) o["explicit"] = 1;
		return o;
	}
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
	Visitor(Exporter& e) : E(e) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldWalkTypesOfTypeLocs() const { return false; }
	bool TraverseDecl(Decl* d) {
		if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d)) {
			if (!E.in_root(d->getLocation())) {
				/* an instantiation of a repo template may live in a library namespace: not handled */
				return true;
			}
		}
		return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
	}
	bool VisitFunctionDecl(FunctionDecl* f) {
		if (f->isDependentContext() || !E.in_root(f->getLocation())) return true;
		if (f->isThisDeclarationADefinition() || f->isImplicit()) E.enqueue(f);
		return true;
	}
	bool VisitVarDecl(VarDecl* v) {
		if (v->getDeclContext()->isDependentContext() || isa<ParmVarDecl>(v)) return true;
		if (v->hasGlobalStorage() && E.in_root(v->getLocation())) E.add_global(v);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* r) {
		if (!r->isDependentContext() && E.in_root(r->getLocation())) E.add_record(r);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e) {
		if (E.in_root(e->getLocation()) && !e->isDependentContext()) E.add_enum(e);
		return true;
	}
	Exporter& E;
};

int main(int argc, char** argv)
{
	if (argc < 5) return 2;
	g_root = Exporter::norm(argv[1]);
	string out = argv[2];
	string file = argv[3];
	std::vector<string> args;
	for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
	std::ifstream in(file);
	std::stringstream ss;
	ss << in.rdbuf();
	auto ast = tooling::buildASTFromCodeWithArgs(ss.str(), args, file, "exporter");
	if (!ast) return 3;
	if (ast->getDiagnostics().hasErrorOccurred()) return 4;
	Exporter E(ast->getASTContext());
	Visitor V(E);
	V.TraverseDecl(ast->getASTContext().getTranslationUnitDecl());
	E.drain();
	Object o;
	o["file"] = E.main_file;
	o["functions"] = std::move(E.functions);
	o["fnrefs"] = std::move(E.fnrefs);
	o["records"] = std::move(E.records);
	o["enums"] = std::move(E.enums);
	o["globals"] = std::move(E.globals);
	o["types"] = std::move(E.types);
	Object u;
	for (auto const& i: E.unsupported) u[i.first] = i.second;
	o["unsupported"] = std::move(u);
	std::error_code ec;
	llvm::raw_fd_ostream os(out, ec);
	if (ec) return 5;
	os << Value(std::move(o));
	return 0;
}
