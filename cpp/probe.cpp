// Thin pybind11 window onto the C++ helpers of the repository that the shipped bindings do not expose.
#include "Code.hpp"
#include "GF2.hpp"
#include "TreeNode.hpp"
#include "Utils.hpp"

#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <memory>
#include <tuple>

namespace py = pybind11;

PYBIND11_MODULE(qprobe, m) {
    m.def("rowspace", &Utils::isVectorInRowspace);
    m.def("transpose", &Utils::getTranspose);
    m.def("matvec", [](const gf2Mat& a, const gf2Vec& v) {
        gf2Vec r(a.size(), false);
        Utils::rectMatrixMultiply(a, v, r);
        return r;
    });
    m.def("swap_rows", [](gf2Mat a, std::size_t i, std::size_t j) { Utils::swapRows(a, i, j); return a; });
    m.def("import_file", &Utils::importGf2MatrixFromFile);
    m.def("residual", [](const gf2Vec& e, gf2Vec r) { Utils::computeResidualErr(e, r); return r; });
    m.def("to_string_mat", [](const gf2Mat& a) { return Utils::getStringFrom(a); });
    m.def("to_string_vec", [](const gf2Vec& a) { return Utils::getStringFrom(a); });
    m.def("to_csc", &Utils::toCsc);
    m.def("plu", [](const gf2Mat& a, const std::vector<std::vector<uint64_t>>& ys) {
        PluDecomposition p(a.size(), a.front().size(), Utils::toCsc(a));
        std::vector<std::vector<uint64_t>> out;
        for (const auto& y : ys) {
            out.push_back(p.luSolve(y));
        }
        return std::make_tuple(p.getMatrixRank(), out);
    });
    m.def("union_find", [](std::size_t n, const std::vector<std::pair<std::size_t, std::size_t>>& ops) {
        std::vector<std::unique_ptr<TreeNode>> nodes;
        for (std::size_t i = 0; i < n; ++i) {
            nodes.push_back(std::make_unique<TreeNode>(i));
        }
        for (const auto& [a, b] : ops) {
            TreeNode::Union(nodes.at(a).get(), nodes.at(b).get());
        }
        std::vector<std::size_t> roots;
        std::vector<std::size_t> sizes;
        for (std::size_t i = 0; i < n; ++i) {
            auto* r = TreeNode::Find(nodes.at(i).get());
            roots.push_back(r->vertexIdx);
            sizes.push_back(r->clusterSize);
        }
        return std::make_tuple(roots, sizes);
    });
}
