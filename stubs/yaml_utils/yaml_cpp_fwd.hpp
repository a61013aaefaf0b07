// Stand-in for the yaml_utils package, which is not in the repository: reading
// parameters (an absent one is an error) and conversion of Eigen matrices.
#pragma once
#include <stdexcept>
#include <string>
#include <yaml-cpp/yaml.h>
#include <iomanip>
#include <Eigen/Eigen>
namespace YAML {
  // A vector is a sequence of numbers, a matrix a sequence of rows.
  template <typename S, int R, int C, int O, int MR, int MC>
  struct convert<Eigen::Matrix<S, R, C, O, MR, MC>> {
    typedef Eigen::Matrix<S, R, C, O, MR, MC> M;
    static Node encode(const M& m) {
      Node n(NodeType::Sequence);
      if (C == 1 || R == 1) { for (int i = 0; i < m.size(); i++) n.push_back(m(i)); }
      else for (int i = 0; i < m.rows(); i++) { Node r(NodeType::Sequence); for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); n.push_back(r); }
      return n;
    }
    static bool decode(const Node& n, M& m) {
      if (!n.IsSequence()) return false;
      int rows = (int)n.size(), cols = rows && n[0].IsSequence() ? (int)n[0].size() : 1;
      if (R == 1 && C != 1 && cols == 1) std::swap(rows, cols);
      if ((R != Eigen::Dynamic && R != rows) || (C != Eigen::Dynamic && C != cols)) return false;
      m.resize(rows, cols);
      bool nested = n.size() && n[0].IsSequence();
      for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) m(i, j) = nested ? n[i][j].template as<S>() : n[R == 1 && C != 1 ? j : i].template as<S>();
      return true;
    }
  };
}
namespace YAML {
  template <typename T> T ReadParameter(const Node& node, const std::string& name) {
    const Node p = node[name];
    if (!p) throw std::runtime_error("Error: Yaml node [" + name + "] is not defined");
    try { return p.as<T>(); }
    catch (const std::exception& e) { throw std::runtime_error("Error reading the yaml parameter [" + name + "]: " + e.what()); }
  }
  template <typename T> void ReadParameter(const Node& node, const std::string& name, T& value) { value = ReadParameter<T>(node, name); }
}
