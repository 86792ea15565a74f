// Link-time monitors on the three local edits: every call that comes from
// outside mesh.cpp passes through the hooks below.  Needs the linker flags of
// EDIT_WRAP in tools/props.py.
#pragma once
#include "edit.h"

namespace vh {
struct EditHooks {
    // called before and after; the second argument of the latter is the result
    std::function<void(Mesh &, Halfedge *)> preFlip, preSplit, preCollapse;
    std::function<void(Mesh &, bool)> postFlip, postSplit, postCollapse;
};
inline EditHooks &hooks() {
    static EditHooks h;
    return h;
}
struct HookScope {
    HookScope() { hooks() = EditHooks(); }
    ~HookScope() { hooks() = EditHooks(); }
};
}  // namespace vh

#define VH_WRAP(SYM, NAME)                                                   \
    extern "C" bool __real_##SYM(tinymesh::Mesh *, tinymesh::Halfedge *);    \
    extern "C" bool __wrap_##SYM(tinymesh::Mesh *m, tinymesh::Halfedge *h) { \
        if (vh::hooks().pre##NAME) vh::hooks().pre##NAME(*m, h);             \
        const bool r = __real_##SYM(m, h);                                   \
        if (vh::hooks().post##NAME) vh::hooks().post##NAME(*m, r);           \
        return r;                                                            \
    }
VH_WRAP(_ZN8tinymesh4Mesh6flipHEEPNS_8HalfedgeE, Flip)
VH_WRAP(_ZN8tinymesh4Mesh7splitHEEPNS_8HalfedgeE, Split)
VH_WRAP(_ZN8tinymesh4Mesh10collapseHEEPNS_8HalfedgeE, Collapse)
