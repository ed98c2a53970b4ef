#include <sstream>
#include <tnco/globals.hpp>
#include <tnco/utils.hpp>
#include <tnco/optimize/optimizer.hpp>
#include <tnco/optimize/prob/base.hpp>
#include <tnco/optimize/prob/greedy.hpp>
#include <tnco/optimize/prob/mh.hpp>
#include <tnco/optimize/infinite_memory/optimizer.hpp>
#include <tnco/optimize/infinite_memory/cost_model/base.hpp>
#include <tnco/optimize/infinite_memory/cost_model/simple.hpp>
#include <tnco/optimize/infinite_memory/cost_model/simple_sparse_inds.hpp>
#include <tnco/optimize/finite_width/cost_model/base.hpp>
#include <tnco/optimize/finite_width/cost_model/simple.hpp>
#include <tnco/optimize/finite_width/cost_model/simple_sparse_inds.hpp>
#include <tnco/optimize/finite_width/greedy/optimizer.hpp>
using namespace tnco;
template struct tnco::bitset::Bitset<>;
template struct tnco::node::Node<index_type>;
template struct tnco::tree::Tree<node_type>;
template struct tnco::ctree::ContractionTree<tree_type, bitset_type>;
namespace im = tnco::optimize::infinite_memory;
namespace fw = tnco::optimize::finite_width;
template struct tnco::optimize::prob::greedy::Probability<double>;
template struct tnco::optimize::prob::mh::Probability<double>;
template struct im::cost_model::simple::CostModel<double>;
template struct im::cost_model::simple_sparse_inds::CostModel<double>;
template struct fw::cost_model::simple::CostModel<double,double>;
template struct fw::cost_model::simple_sparse_inds::CostModel<double,double>;
template struct im::optimizer::Optimizer<im::cost_model::base::CostModel<double>, tnco::optimize::prob::base::Probability<double>>;
template struct fw::greedy::optimizer::Optimizer<fw::cost_model::base::CostModel<double,double>, tnco::optimize::prob::base::Probability<double>>;
template auto tnco::utils::get_contraction<tree_type>(const tree_type&) -> std::vector<std::array<index_type,3>>;
template void tnco::bitset::init<>(pybind11::module&, const std::string&);
