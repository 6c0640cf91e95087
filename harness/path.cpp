#include "ghost.hpp"
#include "bomba_core.hpp"
using namespace Bomba;
extern "C" const IRemoteCallable* v_child(const IRemoteCallable* self, const char* name, size_t size);
extern "C" const char* v_name(const IRemoteCallable* self, const IRemoteCallable* child, size_t* size);
extern "C" void v_result(GStr&);
struct Node : IRemoteCallable {
	const IRemoteCallable* getChild(std::string_view name) const override { return v_child(this, name.data(), name.size()); }
	std::pair<std::string_view, int> childName(const IRemoteCallable* child) const override { size_t n = 0; const char* p = v_name(this, child, &n); return {std::string_view(p, n), 0}; }
};
extern "C" {
Node* h_node(void* place) { return new (place) Node; }
const IRemoteCallable* h_find1(const char* text, size_t size, const IRemoteCallable* root) { return PathWithSeparator<".", GStr>::findCallable(std::string_view(text, size), root); }
const IRemoteCallable* h_find2(const char* text, size_t size, const IRemoteCallable* root) { return PathWithSeparator<"::", GStr>::findCallable(std::string_view(text, size), root); }
void h_construct(const IRemoteCallable* callable) { GStr path = PathWithSeparator<"/", GStr>::constructPath(callable); v_result(path); }
void h_prepend(const IRemoteCallable* callable, GStr& path) { PathWithSeparator<"/", GStr>::prependPath(callable, path); }
}
