// Skin and morph controllers and their instances: rendering and generation.
#include "docgen.h"
namespace dg {
void dump_controller(Dump& d, FCDController* c) {
    if (c->IsSkin()) { In k(d, "skin"); FCDSkinController* s = c->GetSkinController(); d.ref("target", s->GetTarget()); d.m44("bind shape", s->GetBindShapeTransform());
        for (size_t i = 0; i < s->GetJointCount(); ++i) { In j(d, "joint"); d.s("id", S(s->GetJoint(i)->GetId())); d.m44("inverse bind pose", s->GetJoint(i)->GetBindPoseInverse()); }
        for (size_t v = 0; v < s->GetInfluenceCount(); ++v) { In j(d, "vertex"); auto* x = s->GetVertexInfluence(v); double sum = 0; for (size_t i = 0; i < x->GetPairCount(); ++i) sum += x->GetPair(i)->weight; if (sum < 1e-3) sum = 1; // loading normalises
            d.i("influences", (long long) x->GetPairCount()); for (size_t i = 0; i < x->GetPairCount(); ++i) { d.i("joint", x->GetPair(i)->jointIndex); d.f("weight", x->GetPair(i)->weight / sum); } } }
    if (c->IsMorph()) { In k(d, "morph"); FCDMorphController* m = c->GetMorphController(); d.i("method", m->GetMethod()); d.ref("base", m->GetBaseTarget());
        for (size_t i = 0; i < m->GetTargetCount(); ++i) { In j(d, "target"); d.ref("geometry", m->GetTarget(i)->GetGeometry()); d.f("weight", *m->GetTarget(i)->GetWeight()); dump_animated(d, m->GetTarget(i)->GetWeight().GetAnimated()); } }
}
static FCDGeometry* twin(Gen& G, size_t vertices) {   // a bare mesh of that many vertices
    FCDGeometry* gm = G.doc->GetGeometryLibrary()->AddEntity(); G.entity(gm); FCDGeometryMesh* m = gm->CreateMesh(); FCDGeometrySource* s = m->AddVertexSource(FUDaeGeometryInput::POSITION);
    s->SetDaeId(fm::string(G.word("src").c_str())); FloatList l; for (size_t i = 0; i < 3 * vertices; ++i) l.push_back(G.fl()); s->SetData(l, 3);
    FCDGeometryPolygons* p = m->AddPolygons(); p->SetMaterialSemantic(G.word("mat").c_str()); p->AddFaceVertexCount(3); std::vector<uint32> ix; for (int k = 0; k < 3; ++k) ix.push_back((uint32) G.g.below(vertices)); p->GetInput(0)->SetIndices(ix.data(), 3); m->Recalculate();
    return gm;
}
void Gen::skin(FCDSkinController* s) {
    s->SetBindShapeTransform(m44());
    std::vector<FCDSceneNode*> inner; for (auto* n : nodes) if (n->GetParentCount()) inner.push_back(n);
    size_t joints = g.len(5); std::set<std::string> used;
    for (size_t k = 0; k < joints; ++k) { std::string id; if (inner.empty()) id = word("bone"); else { FCDSceneNode* n = inner[g.below(inner.size())]; if (n->GetSubId().empty()) n->SetSubId(fm::string(word("bone").c_str())); id = S(n->GetSubId()); } if (used.insert(id).second) s->AddJoint(id.c_str(), m44()); }
    size_t vertices = g.len(8); s->SetInfluenceCount(vertices);
    for (size_t v = 0; v < vertices; ++v) { auto* x = s->GetVertexInfluence(v); size_t pairs = g.len(5); std::vector<float> w; float sum = 0; for (size_t k = 0; k < pairs; ++k) { w.push_back(g.chance(1, 6) ? 0 : (float) g.below(101)); sum += w.back(); }
        for (size_t k = 0; k < pairs; ++k) x->AddPair((int32) g.range(-1, (int64_t) s->GetJointCount() - 1), sum > 0 ? w[k] / sum : 0); }
}
void Gen::morph(FCDMorphController* m, FCDEntity* base) {
    m->SetMethod(g.coin() ? FUDaeMorphMethod::NORMALIZED : FUDaeMorphMethod::RELATIVE); m->SetBaseTarget(base);
    auto* l = doc->GetGeometryLibrary(); FCDGeometry* b = m->GetBaseTarget() == NULL ? NULL : m->GetParent()->GetBaseGeometry(); size_t vertices = b && b->IsMesh() && b->GetMesh()->GetPositionSource() ? b->GetMesh()->GetPositionSource()->GetValueCount() : 0;
    for (size_t k = g.len(4); k-- > 0;) { FCDGeometry* t = vertices && g.coin() ? twin(*this, vertices) : l->GetEntityCount() ? l->GetEntity(g.below(l->GetEntityCount())) : NULL; if (t) m->AddTarget(t, g.chance(1, 3) ? unit() : fl()); }
}
// An arm of nodes whose sub-ids are those of every other copy of the same arm.
static void arm(Gen& G, FCDSceneNode* top, const std::vector<std::string>& bones, std::vector<FCDSceneNode*>& out) {
    FCDSceneNode* p = top; for (auto& b : bones) { FCDSceneNode* n = p->AddChildNode(); G.entity(n); n->SetSubId(fm::string(b.c_str())); n->SetJointFlag(true); G.transform(n); out.push_back(n); if (G.g.chance(2, 3)) p = n; }
}
void Gen::controllers() {
    auto* gl = doc->GetGeometryLibrary(); auto* l = doc->GetControllerLibrary(); if (gl->GetEntityCount() == 0) { if (g.coin()) twin(*this, 3 + g.below(4)); else return; }
    size_t count = g.len(4); std::vector<FCDController*> order; bool backwards = g.coin(); // base before or after in the library
    for (size_t k = 0; k < count; ++k) { FCDController* c = l->AddEntity(); entity(c); order.push_back(c); }
    if (backwards) std::reverse(order.begin(), order.end());
    std::vector<FCDEntity*> bases; for (size_t i = 0; i < gl->GetEntityCount(); ++i) bases.push_back(gl->GetEntity(i));
    for (auto* c : order) { FCDEntity* base = g.chance(1, 3) ? bases.back() : bases[g.below(bases.size())];
        if (g.chance(2, 3)) { FCDSkinController* s = c->CreateSkinController(); s->SetTarget(base); skin(s); } else morph(c->CreateMorphController(), base);
        bases.push_back(c); }
    if (nodes.empty() || order.empty()) return;
    // Two or three copies of one skeleton below siblings, each with its own instance of the skin
    if (g.chance(1, 3)) { FCDController* c = l->AddEntity(); entity(c); FCDSkinController* s = c->CreateSkinController(); s->SetTarget(gl->GetEntity(g.below(gl->GetEntityCount()))); std::vector<FCDSceneNode*> none; std::swap(none, nodes); skin(s); std::swap(none, nodes);
        std::vector<std::string> bones; for (size_t i = 0; i < s->GetJointCount(); ++i) bones.push_back(S(s->GetJoint(i)->GetId())); std::vector<std::string> shuffled = bones; if (g.coin()) std::reverse(shuffled.begin(), shuffled.end());
        FCDSceneNode* root = nodes[0]; for (size_t copy = 2 + g.below(2); copy-- > 0;) { std::vector<FCDSceneNode*> a; arm(*this, root->AddChildNode(), shuffled, a); FCDControllerInstance* i = (FCDControllerInstance*) nodes[g.below(nodes.size())]->AddInstance(c); instance(i);
            for (auto& b : bones) for (auto* n : a) if (S(n->GetSubId()) == b) i->AddJoint(n); i->CalculateRootIds(); } }
    for (size_t k = g.len(4); k-- > 0;) { FCDController* c = order[g.below(order.size())];
        FCDEntity* under = c; while (under && under->GetType() == FCDEntity::CONTROLLER && !((FCDController*) under)->IsSkin()) under = ((FCDController*) under)->GetBaseTarget();
        FCDSkinController* s = under && under->GetType() == FCDEntity::CONTROLLER ? ((FCDController*) under)->GetSkinController() : NULL; bool bound = true;
        if (s) for (size_t j = 0; j < s->GetJointCount(); ++j) { bool found = false; for (auto* n : nodes) found |= n->GetSubId() == s->GetJoint(j)->GetId(); bound &= found; } if (!bound) continue;
        FCDControllerInstance* i = (FCDControllerInstance*) nodes[g.below(nodes.size())]->AddInstance(c); instance(i); material_instances(i);
        if (s) { for (size_t j = 0; j < s->GetJointCount(); ++j) for (auto* n : nodes) if (n->GetSubId() == s->GetJoint(j)->GetId()) i->AddJoint(n); i->CalculateRootIds(); } }
}
}
