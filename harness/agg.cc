// C01-C06, C21: agglomeration, agglomerate meshes, restriction assembly,
// output. Drives mfmg::AMGe on enumerated meshes, configurations, histories.
#include "fem.hpp"

#include <mfmg/common/amge.hpp>

#include <deal.II/base/mpi.h>
#include <deal.II/fe/mapping_q.h>

#include <boost/property_tree/ptree.hpp>

#include <dirent.h>
#include <unistd.h>
#include <zlib.h>

using ex::Hash;
using ex::Run;
using boost::property_tree::ptree;

// ------------------------------------------------------------ configurations

std::vector<Mesh> brick_meshes(int dim, bool thorough)
{
  std::vector<Mesh> v;
  if (dim == 2)
  {
    int const m = thorough ? 6 : 4;
    for (int i = 1; i <= m; ++i)
      for (int j = 1; j <= m; ++j)
        v.push_back(brick(i, j, 1, 0));
    v.push_back(brick(7, 1, 1, 0));
    v.push_back(brick(1, 7, 1, 0));
    v.push_back(brick(5, 3, 1, 0));
    for (int i = 1; i <= (thorough ? 4 : 3); ++i)
      for (int j = 1; j <= (thorough ? 4 : 3); ++j)
        v.push_back(brick(i, j, 1, 1));
    v.push_back(cube(2));
    v.push_back(cube(3));
    if (thorough)
    {
      v.push_back(cube(4));
      v.push_back(brick(3, 2, 1, 2));
      v.push_back(brick(2, 3, 1, 2));
    }
  }
  else
  {
    int const m = thorough ? 4 : 3;
    for (int i = 1; i <= m; ++i)
      for (int j = 1; j <= m; ++j)
        for (int k = 1; k <= m; ++k)
          if (thorough || i * j * k <= 12 || (i == j && j == k))
            v.push_back(brick(i, j, k, 0));
    v.push_back(cube(1));
    v.push_back(cube(2));
    v.push_back(brick(2, 1, 1, 1));
    v.push_back(brick(1, 2, 1, 1));
    v.push_back(brick(1, 1, 2, 1));
    if (thorough)
    {
      v.push_back(brick(3, 2, 1, 1));
      v.push_back(cube(3));
    }
  }
  return v;
}
// other positions and cell shapes; many agglomerates
std::vector<Mesh> warped_meshes(int dim)
{
  std::vector<Mesh> v;
  for (int w : {1, 2, 3})
  {
    v.push_back(warped(
        w, dim == 2 ? brick(5, 3, 1, 0) : brick(3, 2, 2, 0)));
    v.push_back(warped(
        w, dim == 2 ? brick(3, 2, 1, 1) : brick(1, 2, 1, 1)));
  }
  return v;
}
std::vector<Mesh> large_meshes(int dim, bool thorough)
{
  std::vector<Mesh> v;
  if (dim == 2)
  {
    v = {brick(8, 8, 1, 2), brick(40, 2, 1, 0), brick(3, 37, 1, 0),
         mesh_of("L", 4)};
    if (thorough)
      v.push_back(cube(6));
  }
  else
  {
    v = {brick(4, 4, 5, 1), brick(2, 3, 20, 0)};
    if (thorough)
      v.push_back(cube(4));
  }
  return v;
}
std::vector<Part> large_parts(int dim)
{
  if (dim == 2)
    return {{"block", 1, 1, 1},  {"block", 17, 3, 1}, {"block", 1, 100, 1},
            {"block", 33, 1, 1}, {"block", 7, 9, 1},  {"zoltan", 300},
            {"metis", 300},      {"zoltan", 70},      {"metis", 33}};
  return {{"block", 1, 1, 1}, {"block", 5, 1, 7}, {"block", 2, 9, 3},
          {"block", 1, 2, 20}, {"zoltan", 260},   {"metis", 260},
          {"metis", 40}};
}
std::vector<Mesh> other_meshes(int dim, bool thorough)
{
  std::vector<Mesh> v;
  for (int r = 0; r <= (dim == 2 ? (thorough ? 3 : 2) : (thorough ? 2 : 1));
       ++r)
    for (auto const &k : {"L", "disc", "disc2", "ball", "shell", "cross"})
    {
      if (dim == 3 && r == 2 && std::string(k) != "disc")
        continue;
      v.push_back(mesh_of(k, r));
    }
  v.push_back(mesh_of("cheese", 0));
  return v;
}
std::vector<Mesh> hanging_meshes(int dim, bool thorough)
{
  std::vector<Mesh> v;
  for (int r = 1; r <= (dim == 2 ? (thorough ? 4 : 3) : (thorough ? 2 : 1));
       ++r)
    v.push_back(mesh_of("hanging", r));
  return v;
}
std::vector<Part> blocks(int dim, bool thorough)
{
  std::vector<Part> v;
  int const m = dim == 2 ? (thorough ? 6 : 4) : 3;
  for (int a = 1; a <= m; ++a)
    for (int b = 1; b <= m; ++b)
      if (dim == 2)
        v.push_back({"block", a, b, 1});
      else
        for (int c = 1; c <= m; ++c)
          v.push_back({"block", a, b, c});
  if (dim == 2)
    v.push_back({"block", 9, 2, 1});
  else
    v.push_back({"block", 2, 5, 4});
  return v;
}
std::vector<Part> graphs(bool thorough)
{
  std::vector<Part> v;
  for (auto const &k : {"zoltan", "metis"})
    for (int n : (thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 11, 16}
                           : std::vector<int>{1, 2, 3, 4, 5, 8}))
      v.push_back({k, n});
  return v;
}

// A mesh without matrix: cheap
template <int dim>
struct Grid
{
  dealii::parallel::distributed::Triangulation<dim> tria;
  dealii::FE_Q<dim> fe;
  dealii::DoFHandler<dim> dh;
  Grid(Mesh const &m, int degree = 1)
      : tria(MPI_COMM_WORLD), fe(degree), dh(tria)
  {
    make_mesh<dim>(tria, m);
    dh.distribute_dofs(fe);
  }
};

template <int dim>
std::vector<unsigned int> ids_of(dealii::DoFHandler<dim> const &dh)
{
  std::vector<unsigned int> ids;
  for (auto cell : dh.active_cell_iterators())
    ids.push_back(cell->user_index());
  return ids;
}

template <int dim>
bool check_partition(Run &run, dealii::DoFHandler<dim> const &dh,
                     unsigned int n, std::string const &where = "")
{
  std::set<unsigned int> used;
  unsigned int owned = 0;
  for (auto cell : dh.active_cell_iterators())
  {
    unsigned int const id = cell->user_index();
    if (cell->is_locally_owned())
    {
      ++owned;
      if (!run.check(id >= 1 && id <= n, "partition",
                     where + "owned cell with agglomerate id " +
                         std::to_string(id) + " of " + std::to_string(n)))
        return false;
      used.insert(id);
    }
    else if (!run.check(id == 0, "partition",
                        where + "cell that is not owned carries id " +
                            std::to_string(id)))
      return false;
    run.step();
  }
  if (owned == 0)
    run.check(n == 0, "partition", where + "agglomerates without cells");
  return run.check(used.size() == n, "partition",
                   where + std::to_string(used.size()) +
                       " agglomerates have cells, " + std::to_string(n) +
                       " reported");
}

Hash observation(std::string const &what, std::vector<unsigned int> const &ids,
                 unsigned int n)
{
  Hash h;
  h << what << ids << n;
  return h;
}

// ------------------------------------------------------------------ C01, C02

template <int dim>
void c01(Run &run)
{
  std::vector<Mesh> meshes = brick_meshes(dim, run.thorough);
  auto o = other_meshes(dim, run.thorough);
  meshes.insert(meshes.end(), o.begin(), o.end());
  auto hm = hanging_meshes(dim, run.thorough);
  meshes.insert(meshes.end(), hm.begin(), hm.end());
  for (auto const &x : warped_meshes(dim))
    meshes.push_back(x);
  bool const large = run.choose(2, "large");
  if (large)
    meshes = large_meshes(dim, run.thorough);
  Mesh const m = run.pick("mesh", meshes);
  std::vector<Part> parts = graphs(run.thorough);
  if (m.kind != "hanging")
  {
    auto b = blocks(dim, run.thorough);
    parts.insert(parts.begin(), b.begin(), b.end());
  }
  if (large)
    parts = large_parts(dim);
  run.commit();
  // one mesh, and a new one for each partition
  Part const p = run.pick("partition", parts);
  run.note("");
  Grid<dim> g(m);
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, g.dh);
  unsigned int const n = amge.build_agglomerates(to_ptree(p));
  check_partition<dim>(run, g.dh, n);
  std::ostringstream os;
  os << dim << m;
  run.observe(observation(os.str(), ids_of<dim>(g.dh), n));
}

template <int dim>
void c02(Run &run)
{
  std::vector<Mesh> meshes = brick_meshes(dim, run.thorough);
  std::vector<Mesh> o;
  for (int r = 0; r <= (dim == 2 ? 2 : 1); ++r)
    for (auto const &k : {"L", "disc", "disc2"})
      o.push_back(mesh_of(k, r));
  meshes.insert(meshes.end(), o.begin(), o.end());
  for (auto const &x : warped_meshes(dim))
    meshes.push_back(x);
  for (auto const &x : large_meshes(dim, run.thorough))
    meshes.push_back(x);
  Mesh const m = run.pick("mesh", meshes);
  run.commit();
  auto parts = blocks(dim, run.thorough);
  for (auto const &x : large_parts(dim))
    if (x.kind == "block")
      parts.push_back(x);
  Part const p = run.pick("partition", parts);
  Grid<dim> g(m);
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, g.dh);
  unsigned int const n = amge.build_agglomerates(to_ptree(p));
  int const ext[3] = {p.a, p.b, p.c};
  // lattice position of every owned cell
  std::map<unsigned int, std::vector<std::array<int, 3>>> cells;
  for (auto cell : g.dh.active_cell_iterators())
    if (cell->is_locally_owned())
    {
      std::array<int, 3> pos{{0, 0, 0}};
      for (int d = 0; d < dim; ++d)
        pos[d] = int(std::floor((cell->center()[d] - m.shift()[d]) /
                                cell->extent_in_direction(d)));
      cells[cell->user_index()].push_back(pos);
    }
  for (auto const &a : cells)
    for (int d = 0; d < dim; ++d)
    {
      int lo = 1 << 20, hi = -(1 << 20);
      for (auto const &c : a.second)
      {
        lo = std::min(lo, c[d]);
        hi = std::max(hi, c[d]);
      }
      run.step();
      run.check(hi - lo + 1 <= ext[d], "extent",
                "agglomerate " + std::to_string(a.first) + " spans " +
                    std::to_string(hi - lo + 1) + " cells in direction " +
                    std::to_string(d) + ", configured " +
                    std::to_string(ext[d]));
    }
  if (run.size == 1 && m.structured)
  {
    std::map<std::array<int, 3>, unsigned int> tile_id;
    for (auto const &a : cells)
      for (auto const &c : a.second)
      {
        std::array<int, 3> t{{c[0] / ext[0], c[1] / ext[1],
                              dim == 3 ? c[2] / ext[2] : 0}};
        auto it = tile_id.find(t);
        if (it == tile_id.end())
          tile_id[t] = a.first;
        else
          run.check(it->second == a.first, "tiling",
                    "a tile of the regular tiling is split over agglomerates");
        run.step();
      }
    run.check(tile_id.size() == cells.size() && n == cells.size(), "tiling",
              "number of agglomerates " + std::to_string(n) +
                  " is not the number of tiles " +
                  std::to_string(tile_id.size()));
  }
  std::ostringstream os;
  os << dim << m;
  run.observe(observation(os.str(), ids_of<dim>(g.dh), n));
}

// ----------------------------------------------------------------------- C03

template <int dim>
void c03(Run &run)
{
  std::vector<Mesh> meshes =
      dim == 2 ? std::vector<Mesh>{brick(3, 3, 1, 0), cube(2),
                                   mesh_of("disc", 1), mesh_of("L", 1),
                                   mesh_of("ball", 1)}
               : std::vector<Mesh>{brick(2, 2, 2, 0), brick(3, 2, 1, 0),
                                   cube(1)};
  if (run.thorough)
  {
    if (dim == 2)
      meshes.push_back(cube(3));
    else
      meshes.push_back(mesh_of("ball", 0));
  }
  std::vector<Part> alphabet{{"block", 2, 2, 1}, {"block", 1, 3, 2},
                             {"block", 4, 4, 4}, {"zoltan", 2},
                             {"metis", 3},       {"block", 1, 1, 1},
                             {"metis", 1},       {"zoltan", 4}};
  // meshes on which the graph partitioners have more to decide
  bool const graph = run.choose(2, "graph partitioners");
  if (graph)
  {
    meshes = dim == 2 ? std::vector<Mesh>{cube(3), cube(4), brick(8, 8, 1, 0),
                                          brick(16, 4, 1, 0), mesh_of("L", 2)}
                      : std::vector<Mesh>{cube(2), brick(8, 4, 2, 0)};
    alphabet = {{"zoltan", 3}, {"zoltan", 4}, {"metis", 4},  {"zoltan", 5},
                {"metis", 7},  {"zoltan", 9}, {"zoltan", 7}, {"metis", 3}};
  }
  Mesh const m = run.pick("mesh", meshes);
  bool const same_object = run.choose(2, "same AMGe object");
  int const max_depth = run.thorough ? 4 : 3;
  int const n_letters = run.thorough ? 8 : 6;
  int const first = run.choose(n_letters, "request");
  // refined once between two requests
  int const refine_after = run.choose(graph ? 1 : 3, "refine after");
  run.commit();

  // reference: each request on a fresh mesh
  static std::map<std::string, std::pair<std::vector<unsigned int>, unsigned int>>
      fresh_cache;
  int refined = 0;
  auto fresh = [&](Part const &p)
  {
    Mesh now = m;
    now.refine += refined;
    std::ostringstream os;
    os << dim << now << p;
    auto it = fresh_cache.find(os.str());
    if (it == fresh_cache.end())
    {
      Grid<dim> g(now);
      mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, g.dh);
      unsigned int n = amge.build_agglomerates(to_ptree(p));
      it = fresh_cache.emplace(os.str(), std::make_pair(ids_of<dim>(g.dh), n))
               .first;
      // the same, whatever this process did before
      run.record(os.str(), observation(os.str(), it->second.first, n));
    }
    return it->second;
  };
  // canonical partition: list of cell sets, ordered by id
  Grid<dim> g(m);
  auto amge = std::make_unique<mfmg::AMGe<dim, DistVec>>(MPI_COMM_WORLD, g.dh);
  int letter = first;
  std::string hist;
  for (int depth = 1;; ++depth)
  {
    Part const &p = alphabet[letter];
    std::ostringstream os;
    os << p;
    hist += " " + os.str();
    if (refine_after && depth == refine_after + 1)
    {
      g.tria.refine_global(1);
      g.dh.distribute_dofs(g.fe);
      refined = 1;
      hist += " (refined)";
    }
    if (!same_object)
      amge = std::make_unique<mfmg::AMGe<dim, DistVec>>(MPI_COMM_WORLD, g.dh);
    unsigned int const n = amge->build_agglomerates(to_ptree(p));
    auto const ref = fresh(p);
    run.step();
    run.check(n == ref.second, "history",
              "after" + hist + ": " + std::to_string(n) + " agglomerates, " +
                  std::to_string(ref.second) + " on a fresh mesh");
    run.check(ids_of<dim>(g.dh) == ref.first, "history",
              "after" + hist + ": other agglomerates than on a fresh mesh");
    // the agglomerates are complete as seen by their users
    if (!run.failed())
    {
      auto bnd = amge->build_boundary_agglomerates();
      run.check(bnd.first.size() == n && bnd.second.size() == n, "history",
                "after" + hist + ": boundary agglomerates dropped");
    }
    std::ostringstream h;
    h << dim << m << hist << same_object << graph;
    run.observe(observation(h.str(), ids_of<dim>(g.dh), n));
    if (depth == max_depth)
      break;
    letter = run.choose(n_letters, "request");
  }
}

// ----------------------------------------------------------------------- C04

template <int dim>
void check_boundary_agglomerates(
    Run &run, dealii::DoFHandler<dim> const &dh, unsigned int n,
    std::pair<std::vector<std::vector<unsigned int>>,
              std::vector<std::vector<unsigned int>>> const &res)
{
  // reference: cells that share a vertex, by brute force over vertex ids
  std::map<unsigned int, std::vector<int>> vertex_cells;
  std::vector<unsigned int> agg;
  std::vector<std::vector<unsigned int>> verts;
  std::vector<bool> owned;
  int c = 0;
  for (auto cell : dh.active_cell_iterators())
  {
    verts.emplace_back();
    for (unsigned int v = 0; v < dealii::GeometryInfo<dim>::vertices_per_cell;
         ++v)
    {
      verts.back().push_back(cell->vertex_index(v));
      vertex_cells[cell->vertex_index(v)].push_back(c);
    }
    owned.push_back(cell->is_locally_owned());
    agg.push_back(owned.back() ? cell->user_index() : 0);
    ++c;
  }
  if (!run.check(res.first.size() == n && res.second.size() == n, "lists",
                 "wrong number of boundary agglomerates: " +
                     std::to_string(res.first.size()) + ", " +
                     std::to_string(res.second.size()) + " instead of " +
                     std::to_string(n)))
    return;
  for (unsigned int a = 1; a <= n; ++a)
  {
    std::set<unsigned int> inner, halo;
    for (int i = 0; i < c; ++i)
      if (agg[i] == a)
        for (auto v : verts[i])
          for (int j : vertex_cells[v])
            if (agg[j] != a)
            {
              inner.insert(i);
              halo.insert(j);
            }
    run.step();
    run.check(res.first[a - 1] ==
                  std::vector<unsigned int>(inner.begin(), inner.end()),
              "interior",
              "interior boundary agglomerate " + std::to_string(a) +
                  " differs from the vertex-neighbour definition");
    run.check(res.second[a - 1] ==
                  std::vector<unsigned int>(halo.begin(), halo.end()),
              "halo",
              "halo agglomerate " + std::to_string(a) +
                  " differs from the vertex-neighbour definition");
  }
}

template <int dim>
void c04(Run &run)
{
  bool const arbitrary = run.size == 1 && run.choose(2, "arbitrary assignment");
  if (!arbitrary)
  {
    std::vector<Mesh> meshes = brick_meshes(dim, run.thorough);
    auto o = other_meshes(dim, run.thorough);
    meshes.insert(meshes.end(), o.begin(), o.end());
    auto hm = hanging_meshes(dim, run.thorough);
    meshes.insert(meshes.end(), hm.begin(), hm.end());
    for (auto const &x : warped_meshes(dim))
      meshes.push_back(x);
    bool const large = run.choose(2, "large");
    if (large)
      meshes = large_meshes(dim, run.thorough);
    Mesh const m = run.pick("mesh", meshes);
    std::vector<Part> parts = graphs(run.thorough);
    if (m.kind != "hanging")
    {
      auto b = blocks(dim, run.thorough);
      parts.insert(parts.begin(), b.begin(), b.end());
    }
    if (large)
      parts = large_parts(dim);
    run.commit();
    Part p = run.pick("partition", parts);
    // what happens to the object and the mesh afterwards
    int const then = large ? 0 : run.choose(m.kind == "hanging" ? 2 : 3, "then");
    Grid<dim> g(m);
    mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, g.dh);
    std::pair<std::vector<std::vector<unsigned int>>,
              std::vector<std::vector<unsigned int>>>
        res;
    for (int round = 0; round < (then ? 2 : 1); ++round)
    {
      if (round == 1 && then == 1)
        p = m.kind == "hanging" ? Part{"metis", 2} : Part{"block", 2, 1, 2};
      else if (round == 1)
      {
        g.tria.refine_global(1);
        g.dh.distribute_dofs(g.fe);
      }
      unsigned int const n = amge.build_agglomerates(to_ptree(p));
      auto const before = ids_of<dim>(g.dh);
      res = amge.build_boundary_agglomerates();
      check_boundary_agglomerates<dim>(run, g.dh, n, res);
      run.check(before == ids_of<dim>(g.dh), "pure",
                "agglomerate ids changed by computing boundary agglomerates");
      if (round == 0)
        run.check(amge.build_boundary_agglomerates() == res, "again",
                  "boundary agglomerates differ the second time");
    }
    Hash h;
    h << dim;
    for (auto const &x : res.first)
      h << x;
    for (auto const &x : res.second)
      h << x;
    run.observe(h);
    return;
  }
  // every assignment of the cells of a small mesh to 1..k, surjective
  std::vector<Mesh> meshes =
      dim == 2 ? std::vector<Mesh>{brick(2, 2, 1, 0), brick(3, 2, 1, 0),
                                   mesh_of("L", 0), mesh_of("ball", 0),
                                   mesh_of("disc2", 0)}
               : std::vector<Mesh>{brick(2, 2, 1, 0), brick(1, 2, 2, 0),
                                   brick(2, 1, 3, 0)};
  if (run.thorough)
    meshes.push_back(dim == 2 ? brick(3, 3, 1, 0) : brick(2, 2, 2, 0));
  Mesh const m = run.pick("mesh", meshes);
  int const k = 1 + run.choose(3, "agglomerates-1");
  run.commit();
  Grid<dim> g(m);
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, g.dh);
  unsigned int const n = amge.build_agglomerates(to_ptree({"metis", k}));
  if (int(n) != k)
    run.reject();
  std::vector<unsigned int> ids;
  std::set<unsigned int> used;
  for (auto cell : g.dh.active_cell_iterators())
  {
    unsigned int const id = 1 + run.choose(k, "id");
    cell->set_user_index(id);
    used.insert(id);
    ids.push_back(id);
  }
  if (int(used.size()) != k)
    run.reject();
  auto const res = amge.build_boundary_agglomerates();
  check_boundary_agglomerates<dim>(run, g.dh, n, res);
  std::ostringstream os;
  os << dim << m << "arb";
  run.observe(observation(os.str(), ids, n));
}

// ----------------------------------------------------------------------- C05

template <int dim>
void check_agglomerate_mesh(Run &run, Grid<dim> &g, int degree, int numbering,
                            std::vector<typename dealii::DoFHandler<
                                dim>::active_cell_iterator> const &cells,
                            mfmg::AMGe<dim, DistVec> const &amge,
                            std::function<void(
                                dealii::Triangulation<dim> &,
                                std::map<typename dealii::Triangulation<
                                             dim>::active_cell_iterator,
                                         typename dealii::DoFHandler<
                                             dim>::active_cell_iterator> &)>
                                build)
{
  using namespace dealii;
  Triangulation<dim> at;
  std::map<typename Triangulation<dim>::active_cell_iterator,
           typename DoFHandler<dim>::active_cell_iterator>
      map;
  build(at, map);
  run.step();
  if (!run.check(at.n_active_cells() == cells.size() &&
                     map.size() == cells.size(),
                 "cells",
                 "agglomerate mesh has " + std::to_string(at.n_active_cells()) +
                     " cells, map " + std::to_string(map.size()) +
                     ", agglomerate " + std::to_string(cells.size())))
    return;
  std::set<typename DoFHandler<dim>::active_cell_iterator> images;
  for (auto const &p : map)
  {
    images.insert(p.second);
    for (unsigned int v = 0; v < GeometryInfo<dim>::vertices_per_cell; ++v)
      run.check(p.first->vertex(v).distance(p.second->vertex(v)) <
                    1e-12 * p.second->diameter() +
                        1e-15 * p.second->vertex(v).norm(),
                "vertices", "vertex of an agglomerate cell moved");
    for (unsigned int f = 0; f < GeometryInfo<dim>::faces_per_cell; ++f)
    {
      auto face = p.first->face(f);
      if (p.second->face(f)->at_boundary())
        run.check(face->at_boundary() &&
                      face->boundary_id() == p.second->face(f)->boundary_id(),
                  "boundary id",
                  "boundary id " + std::to_string(face->boundary_id()) +
                      " instead of " +
                      std::to_string(p.second->face(f)->boundary_id()));
      else if (face->at_boundary())
        run.check(face->boundary_id() == 0, "boundary id",
                  "face inside the domain has boundary id " +
                      std::to_string(face->boundary_id()));
    }
  }
  for (auto const &c : cells)
    run.check(images.count(c) == 1, "cells", "cell missing from the map");
  if (run.failed())
    return;

  DoFHandler<dim> adh(at);
  adh.distribute_dofs(g.fe);
  if (numbering == 1)
  {
    std::vector<types::global_dof_index> ren(adh.n_dofs());
    for (unsigned int i = 0; i < ren.size(); ++i)
      ren[i] = ren.size() - 1 - i;
    adh.renumber_dofs(ren);
  }
  std::vector<Point<dim>> ap(adh.n_dofs());
  MappingQ<dim> mapping(1);
  DoFTools::map_dofs_to_support_points(mapping, adh, ap);
  std::map<types::global_dof_index, Point<dim>> gp;
  double tolerance = 0.;
  for (auto const &c : cells)
    tolerance = std::max(tolerance, 1e-10 * c->diameter());
  {
    FEValues<dim> fv(mapping, g.fe,
                     Quadrature<dim>(g.fe.get_unit_support_points()),
                     update_quadrature_points);
    std::vector<types::global_dof_index> idx(g.fe.dofs_per_cell);
    for (auto const &c : cells)
    {
      fv.reinit(c);
      c->get_dof_indices(idx);
      for (unsigned int i = 0; i < idx.size(); ++i)
        gp[idx[i]] = fv.quadrature_point(i);
    }
  }
  auto const dmap = amge.compute_dof_index_map(map, adh);
  if (!run.check(dmap.size() == adh.n_dofs(), "dof map size",
                 "dof index map has the wrong size"))
    return;
  for (unsigned int i = 0; i < dmap.size(); ++i)
  {
    auto it = gp.find(dmap[i]);
    if (!run.check(it != gp.end(), "dof map",
                   "dof mapped to a dof outside of the agglomerate"))
      return;
    run.check(it->second.distance(ap[i]) < tolerance, "dof map",
              "dof mapped to a dof at another support point");
    run.step();
  }
  Hash h;
  h << dim << degree << numbering << unsigned(cells.size());
  for (auto d : dmap)
    h << std::uint64_t(d);
  run.observe(h);
}

template <int dim>
void c05(Run &run)
{
  bool const subsets = run.choose(2, "cell lists");
  std::vector<Mesh> meshes;
  if (subsets)
    meshes = dim == 2
                 ? std::vector<Mesh>{brick(2, 2, 1, 0), brick(3, 2, 1, 0),
                                     mesh_of("ball", 0), mesh_of("L", 0),
                                     brick(4, 2, 1, 0), cube(1)}
                 : std::vector<Mesh>{brick(2, 2, 1, 0), brick(1, 2, 2, 0),
                                     mesh_of("ball", 0)};
  else
  {
    meshes = dim == 2 ? std::vector<Mesh>{brick(3, 2, 1, 0), brick(4, 4, 1, 0),
                                          brick(2, 3, 1, 1), cube(2), cube(3),
                                          mesh_of("L", 1), mesh_of("disc", 1),
                                          mesh_of("ball", 1),
                                          mesh_of("shell", 1),
                                          mesh_of("cross", 1)}
                      : std::vector<Mesh>{brick(2, 3, 1, 0), cube(1),
                                          cube(2), mesh_of("ball", 1),
                                          mesh_of("L", 1),
                                          mesh_of("disc", 1)};
  }
  if (run.thorough && subsets)
    meshes.push_back(dim == 2 ? brick(3, 3, 1, 0) : brick(2, 2, 2, 0));
  for (int w : {1, 2, 3})
    meshes.push_back(warped(w, dim == 2 ? brick(3, 2, 1, 0)
                                        : brick(2, 2, 1, 0)));
  if (!subsets)
    meshes.push_back(dim == 2 ? brick(12, 9, 1, 0) : brick(4, 3, 3, 0));
  if (run.thorough && !subsets)
  {
    auto o = other_meshes(dim, true);
    meshes.insert(meshes.end(), o.begin(), o.end());
  }
  Mesh const m = run.pick("mesh", meshes);
  // every choice of sides of the domain with a boundary id that is not zero
  std::vector<std::string> bcs{"distinct", "left", "dirichlet"};
  for (int mask = 0; mask < (1 << (2 * dim)); ++mask)
    if (dim == 2 || run.thorough || !subsets)
      bcs.push_back("sides" + std::to_string(mask));
  std::string const bc = run.pick("boundary", bcs);
  bool const sides = bc.compare(0, 5, "sides") == 0;
  int const degree = run.pick<int>("degree", sides      ? std::vector<int>{1}
                                             : dim == 2 ? std::vector<int>{1, 2, 3}
                                                        : std::vector<int>{1, 2});
  int const numbering = sides ? 0 : run.choose(2, "reversed numbering");
  Part p;
  if (!subsets)
  {
    std::vector<Part> parts =
        dim == 2 ? std::vector<Part>{{"block", 2, 2, 1}, {"block", 1, 3, 1},
                                     {"block", 3, 2, 1}, {"block", 1, 1, 1},
                                     {"zoltan", 3},      {"metis", 2},
                                     {"metis", 5},       {"block", 11, 8, 1}}
                 : std::vector<Part>{{"block", 2, 2, 2}, {"block", 1, 2, 3},
                                     {"zoltan", 3},      {"metis", 2}};
    p = run.pick("partition", parts);
  }
  run.commit();
  Grid<dim> g(m, degree);
  set_boundary_ids<dim>(g.tria, bc);
  if (numbering == 1)
  {
    // a numbering unlike the default one, within what each rank owns
    auto own = g.dh.locally_owned_dofs();
    std::vector<dealii::types::global_dof_index> v;
    own.fill_index_vector(v);
    std::reverse(v.begin(), v.end());
    g.dh.renumber_dofs(v);
  }
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, g.dh);
  using CellIt = typename dealii::DoFHandler<dim>::active_cell_iterator;
  if (subsets)
  {
    std::vector<CellIt> all;
    for (auto cell : g.dh.active_cell_iterators())
      all.push_back(cell);
    // own cells of this rank (plus ghosts, which halo lists contain)
    std::vector<unsigned int> candidates;
    for (unsigned int i = 0; i < all.size(); ++i)
      if (!all[i]->is_artificial())
        candidates.push_back(i);
    unsigned int const k = candidates.size();
    for (unsigned int mask = 1; mask < (1u << k); ++mask)
    {
      std::vector<unsigned int> list;
      std::vector<CellIt> cells;
      for (unsigned int i = 0; i < k; ++i)
        if (mask & (1u << i))
        {
          list.push_back(candidates[i]);
          cells.push_back(all[candidates[i]]);
        }
      check_agglomerate_mesh<dim>(
          run, g, degree, numbering, cells, amge,
          [&](auto &at, auto &map)
          { amge.build_agglomerate_triangulation(list, at, map); });
      if (run.failed())
      {
        run.note("cell mask " + std::to_string(mask));
        break;
      }
    }
    // the empty list: nothing is built
    dealii::Triangulation<dim> at;
    std::map<typename dealii::Triangulation<dim>::active_cell_iterator, CellIt>
        map;
    amge.build_agglomerate_triangulation(std::vector<unsigned int>(), at, map);
    run.check(map.empty(), "cells", "cells in an empty agglomerate");
    return;
  }
  auto check_all = [&]()
  {
    unsigned int const n = amge.build_agglomerates(to_ptree(p));
    for (unsigned int a = 1; a <= n && !run.failed(); ++a)
    {
      std::vector<CellIt> cells;
      for (auto cell : g.dh.active_cell_iterators())
        if (cell->is_locally_owned() && cell->user_index() == a)
          cells.push_back(cell);
      if (cells.empty())
        continue;
      check_agglomerate_mesh<dim>(
          run, g, degree, numbering, cells, amge, [&](auto &at, auto &map)
          { amge.build_agglomerate_triangulation(a, at, map); });
    }
  };
  check_all();
  if (run.failed())
    return;
  if (numbering == 0 && degree == 1 && !sides)
  {
    // the same object once the boundary, the partition, the mesh are others
    set_boundary_ids<dim>(g.tria, bc == "distinct" ? "left" : "distinct");
    check_all();
    if (run.failed())
      return;
    p = {"block", 2, 1, 1};
    check_all();
    if (run.failed())
      return;
    if (m.refine < 2 && m.n[0] < 5)
    {
      g.tria.refine_global(1);
      g.dh.distribute_dofs(g.fe);
      set_boundary_ids<dim>(g.tria, "distinct");
      check_all();
    }
    if (run.failed())
      return;
  }
  // the lists of boundary cells
  auto const bnd = amge.build_boundary_agglomerates();
  std::vector<CellIt> all;
  for (auto cell : g.dh.active_cell_iterators())
    all.push_back(cell);
  for (auto const *lists : {&bnd.first, &bnd.second})
    for (auto const &list : *lists)
    {
      if (list.empty())
        continue;
      std::vector<CellIt> cells;
      for (auto i : list)
        cells.push_back(all[i]);
      check_agglomerate_mesh<dim>(
          run, g, degree, numbering, cells, amge, [&](auto &at, auto &map)
          { amge.build_agglomerate_triangulation(list, at, map); });
      if (run.failed())
        return;
    }
}

// ----------------------------------------------------------------------- C06

template <int dim>
void c06(Run &run)
{
  std::vector<Mesh> meshes =
      dim == 2 ? std::vector<Mesh>{brick(2, 2, 1, 0), brick(3, 2, 1, 0),
                                   brick(4, 1, 1, 0), cube(2),
                                   mesh_of("disc", 1), mesh_of("ball", 0),
                                   brick(8, 6, 1, 0)}
               : std::vector<Mesh>{brick(2, 1, 1, 0), brick(2, 2, 2, 0),
                                   brick(3, 3, 2, 0)};
  Mesh const m = run.pick("mesh", meshes);
  Part const p = run.pick(
      "partition", std::vector<Part>{{"block", 1, 1, 1}, {"block", 2, 1, 1},
                                     {"block", 2, 2, 2}, {"metis", 2},
                                     {"block", 9, 9, 9}});
  int const diag_kind = run.choose(2, "diag kind");
  int const degree = run.pick<int>("degree", {1, 2});
  // the size of the entries must not matter
  double const scale = run.pick<double>("scale", {1., 1e-18, 1e15});
  run.commit();
  Grid<dim> g(m, degree);
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, g.dh);
  unsigned int const n = amge.build_agglomerates(to_ptree(p));
  // number of eigenvectors of each agglomerate: enumerated for the first
  // three agglomerates of each rank, then cyclic
  std::vector<int> pattern;
  bool const many = run.choose(2, "many eigenvectors");
  if (many)
    pattern = run.choose(2, "pattern") ? std::vector<int>{11, 1, 20}
                                       : std::vector<int>{1, 20, 20};
  else
    for (int i = 0; i < 3; ++i)
      pattern.push_back(1 + run.choose(3, "eigenvectors-1"));
  std::vector<unsigned int> n_eig;
  std::vector<dealii::Vector<double>> eigs;
  std::vector<std::vector<double>> diags;
  std::vector<std::vector<dealii::types::global_dof_index>> maps;
  for (unsigned int a = 1; a <= n; ++a)
  {
    dealii::Triangulation<dim> at;
    std::map<typename dealii::Triangulation<dim>::active_cell_iterator,
             typename dealii::DoFHandler<dim>::active_cell_iterator>
        map;
    amge.build_agglomerate_triangulation(a, at, map);
    dealii::DoFHandler<dim> adh(at);
    adh.distribute_dofs(g.fe);
    maps.push_back(amge.compute_dof_index_map(map, adh));
    std::vector<double> d;
    for (unsigned int j = 0; j < maps.back().size(); ++j)
      d.push_back(diag_kind == 0
                      ? 1. + 0.5 * ((j * 7 + a * 3 + run.rank) % 5)
                      : 0.25 * (1 + (maps.back()[j] % 3)));
    diags.push_back(d);
    n_eig.push_back(pattern[(a - 1) % 3]);
    for (unsigned int k = 0; k < n_eig.back(); ++k)
    {
      dealii::Vector<double> e(maps.back().size());
      for (unsigned int j = 0; j < e.size(); ++j)
        e[j] = ((j + k) % 4 == 3)
                   ? 0.
                   : scale * (1. + k + 0.125 * j -
                              2. * ((a + j + run.rank) % 3));
      eigs.push_back(e);
    }
  }
  dealii::IndexSet rel;
  dealii::DoFTools::extract_locally_relevant_dofs(g.dh, rel);
  DistVec diag(g.dh.locally_owned_dofs(), rel, MPI_COMM_WORLD);
  for (auto i : g.dh.locally_owned_dofs())
    diag(i) = 2. + 0.5 * (i % 7);
  diag.update_ghost_values();

  // reference
  unsigned int const my_rows = eigs.size();
  std::vector<unsigned int> rows(run.size);
  MPI_Allgather(&my_rows, 1, MPI_UNSIGNED, rows.data(), 1, MPI_UNSIGNED,
                MPI_COMM_WORLD);
  unsigned int first = 0, total = 0;
  for (int r = 0; r < run.size; ++r)
  {
    if (r < run.rank)
      first += rows[r];
    total += rows[r];
  }
  if (total == 0)
    run.reject();
  Dense R(total, g.dh.n_dofs()), E(total, g.dh.n_dofs());
  unsigned int row = 0;
  for (unsigned int a = 0; a < n; ++a)
    for (unsigned int k = 0; k < n_eig[a]; ++k, ++row)
      for (unsigned int j = 0; j < maps[a].size(); ++j)
      {
        unsigned int const col = maps[a][j];
        E(first + row, col) = eigs[row][j];
        R(first + row, col) =
            eigs[row][j] * diags[a][j] / (2. + 0.5 * (col % 7));
        run.step();
      }
  for (Dense *d : {&R, &E})
    MPI_Allreduce(MPI_IN_PLACE, d->a.data(), d->a.size(), MPI_DOUBLE, MPI_SUM,
                  MPI_COMM_WORLD);

  TSM r1;
  amge.compute_restriction_sparse_matrix(eigs, diags, maps, n_eig, diag, r1);
  if (!run.check(r1.m() == total && r1.n() == g.dh.n_dofs(), "shape",
                 "restriction matrix is " + std::to_string(r1.m()) + "x" +
                     std::to_string(r1.n()) + " instead of " +
                     std::to_string(total) + "x" +
                     std::to_string(g.dh.n_dofs())))
    return;
  run.check(r1.local_range().first == first &&
                r1.local_range().second == first + my_rows,
            "layout", "rows are not distributed in rank order");
  double const tol = 1e-13 * scale;
  run.check(max_diff(gather(r1), R) < tol, "restriction",
            "restriction matrix differs from weighted eigenvectors by " +
                std::to_string(max_diff(gather(r1), R)));
  auto r2 = std::make_shared<TSM>();
  std::unique_ptr<TSM> e2, d2;
  amge.compute_restriction_sparse_matrix(eigs, diags, maps, n_eig, diag, r2,
                                         e2, d2);
  run.check(max_diff(gather(*r2), R) < tol, "restriction (split)",
            "restriction matrix of the split form differs");
  run.check(max_diff(gather(*e2), E) < tol, "eigenvectors (split)",
            "eigenvector matrix differs from the eigenvectors");
  Dense D = gather(*d2);
  Dense diff(total, g.dh.n_dofs());
  for (std::size_t i = 0; i < diff.a.size(); ++i)
    diff.a[i] = R.a[i] - E.a[i];
  run.check(max_diff(D, diff) < tol, "delta (split)",
            "delta matrix is not restriction minus eigenvectors");
  Hash h;
  h << R.a;
  run.observe(h);
}

// ---------------------------------------------------------------------- C21a

namespace vtu
{
std::vector<unsigned char> base64(std::string const &s)
{
  std::vector<unsigned char> out;
  int val = 0, bits = -8;
  for (char ch : s)
  {
    int d;
    if (ch >= 'A' && ch <= 'Z')
      d = ch - 'A';
    else if (ch >= 'a' && ch <= 'z')
      d = ch - 'a' + 26;
    else if (ch >= '0' && ch <= '9')
      d = ch - '0' + 52;
    else if (ch == '+')
      d = 62;
    else if (ch == '/')
      d = 63;
    else
      continue; // padding, white space
    val = (val << 6) | d;
    bits += 6;
    if (bits >= 0)
    {
      out.push_back((val >> bits) & 0xff);
      bits -= 8;
    }
  }
  return out;
}
// one compressed or ascii DataArray as doubles
std::vector<double> data_array(std::string const &file, std::string const &name)
{
  std::vector<double> v;
  std::size_t pos = name.empty()
                        ? file.find("<Points>")
                        : file.find("Name=\"" + name + "\"");
  if (pos == std::string::npos)
    throw std::runtime_error("no data array " + name);
  if (name.empty())
    pos = file.find("<DataArray", pos);
  else
    pos = file.rfind("<DataArray", pos);
  std::size_t const gt = file.find('>', pos);
  std::string const tag = file.substr(pos, gt - pos);
  std::size_t const end = file.find("</DataArray>", gt);
  std::string text = file.substr(gt + 1, end - gt - 1);
  bool const f32 = tag.find("Float32") != std::string::npos;
  if (tag.find("ascii") != std::string::npos)
  {
    std::istringstream is(text);
    double d;
    while (is >> d)
      v.push_back(d);
    return v;
  }
  // strip white space
  std::string t;
  for (char c : text)
    if (!std::isspace(static_cast<unsigned char>(c)))
      t += c;
  if (t.empty())
    return v;
  // header: 4 x uint32 (one block)
  auto head = base64(t.substr(0, 24));
  std::uint32_t h[4];
  if (head.size() < 16)
    return v;
  std::memcpy(h, head.data(), 16);
  auto comp = base64(t.substr(24));
  std::vector<unsigned char> raw(h[1]);
  uLongf len = raw.size();
  if (h[1] == 0)
    return v;
  if (uncompress(raw.data(), &len, comp.data(), h[3]) != Z_OK)
    throw std::runtime_error("cannot decompress " + name);
  if (f32)
  {
    std::vector<float> f(len / 4);
    std::memcpy(f.data(), raw.data(), f.size() * 4);
    v.assign(f.begin(), f.end());
  }
  else
  {
    v.resize(len / 8);
    std::memcpy(v.data(), raw.data(), v.size() * 8);
  }
  return v;
}
} // namespace vtu

std::string slurp(std::string const &fn)
{
  std::ifstream in(fn);
  std::ostringstream os;
  os << in.rdbuf();
  return os.str();
}

template <int dim>
void c21(Run &run)
{
  std::vector<Mesh> meshes =
      dim == 2 ? std::vector<Mesh>{brick(2, 2, 1, 0), brick(3, 2, 1, 0),
                                   cube(0), cube(2), mesh_of("disc", 0),
                                   mesh_of("L", 1), mesh_of("ball", 0),
                                   mesh_of("hanging", 2)}
               : std::vector<Mesh>{brick(2, 1, 1, 0), cube(1)};
  Mesh const m = run.pick("mesh", meshes);
  std::vector<Part> parts{{"metis", 3}, {"zoltan", 2}};
  if (m.kind != "hanging")
  {
    parts.push_back({"block", 1, 1, 1});
    parts.push_back({"block", 2, 1, 2});
  }
  Part const p = run.pick("partition", parts);
  std::string const base =
      run.pick<std::string>("name", {"agg", "out.put", "a-b_c"});
  run.commit();
  Grid<dim> g(m);
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, g.dh);
  amge.build_agglomerates(to_ptree(p));
  amge.output(base);
  MPI_Barrier(MPI_COMM_WORLD);
  std::string const mine = base + std::to_string(run.rank) + ".vtu";
  std::string const text = slurp(mine);
  run.step();
  if (run.check(!text.empty(), "file", "no mesh file " + mine))
  {
    std::map<std::array<long, 3>, std::pair<double, double>> found;
    unsigned int owned = 0;
    for (auto cell : g.dh.active_cell_iterators())
      owned += cell->is_locally_owned();
    if (owned > 0)
    {
      auto pts = vtu::data_array(text, "");
      auto agg = vtu::data_array(text, "agglomerates");
      auto sub = vtu::data_array(text, "subdomain");
      unsigned int const nv = 1 << dim;
      if (run.check(pts.size() == 3 * agg.size() && sub.size() == agg.size() &&
                        agg.size() % nv == 0,
                    "data", "inconsistent array sizes"))
      {
        for (unsigned int c = 0; c < agg.size() / nv; ++c)
        {
          double ctr[3] = {0, 0, 0};
          bool same = true;
          for (unsigned int v = 0; v < nv; ++v)
          {
            for (int d = 0; d < 3; ++d)
              ctr[d] += pts[3 * (c * nv + v) + d] / nv;
            same = same && agg[c * nv + v] == agg[c * nv] &&
                   sub[c * nv + v] == sub[c * nv];
          }
          run.check(same, "data", "value varies over a cell");
          found[{std::lround(ctr[0] * 1e4), std::lround(ctr[1] * 1e4),
                 std::lround(ctr[2] * 1e4)}] = {agg[c * nv], sub[c * nv]};
        }
        for (auto cell : g.dh.active_cell_iterators())
          if (cell->is_locally_owned())
          {
            std::array<long, 3> key{{0, 0, 0}};
            dealii::Point<dim> c;
            for (unsigned int v = 0; v < nv; ++v)
              for (int d = 0; d < dim; ++d)
                c[d] += cell->vertex(v)[d] / nv;
            for (int d = 0; d < dim; ++d)
              key[d] = std::lround(c[d] * 1e4);
            // float rounding may shift the key by one
            auto it = found.end();
            for (long i = -1; i <= 1 && it == found.end(); ++i)
              for (long j = -1; j <= 1 && it == found.end(); ++j)
                for (long k = -1; k <= 1 && it == found.end(); ++k)
                  it = found.find({key[0] + i, key[1] + j, key[2] + k});
            if (run.check(it != found.end(), "cells",
                          "owned cell missing from " + mine))
            {
              run.check(it->second.first == cell->user_index(), "ids",
                        "agglomerate id " + std::to_string(it->second.first) +
                            " written for " +
                            std::to_string(cell->user_index()));
              run.check(it->second.second == run.rank, "subdomain",
                        "wrong subdomain written");
            }
            run.step();
          }
      }
    }
  }
  if (run.rank == 0)
  {
    std::string const master = slurp(base + ".pvtu");
    std::map<std::string, int> refs;
    std::size_t pos = 0;
    int pieces = 0;
    while ((pos = master.find("Source=\"", pos)) != std::string::npos)
    {
      pos += 8;
      std::size_t const e = master.find('"', pos);
      ++refs[master.substr(pos, e - pos)];
      ++pieces;
    }
    for (int r = 0; r < run.size; ++r)
    {
      std::string const f = base + std::to_string(r) + ".vtu";
      run.check(refs[f] == 1, "record",
                "master record references " + f + " " +
                    std::to_string(refs[f]) + " times");
      run.check(access(f.c_str(), R_OK) == 0, "record",
                "referenced file " + f + " does not exist");
    }
    run.check(pieces == run.size, "record",
              "master record has " + std::to_string(pieces) + " pieces for " +
                  std::to_string(run.size) + " ranks");
  }
  MPI_Barrier(MPI_COMM_WORLD);
  std::ostringstream os;
  os << dim << m << base;
  run.observe(observation(os.str(), ids_of<dim>(g.dh), run.size));
  unlink(mine.c_str());
  if (run.rank == 0)
    unlink((base + ".pvtu").c_str());
}

template <int dim>
void dispatch(Run &run)
{
  if (run.prop == "C01")
    c01<dim>(run);
  else if (run.prop == "C02")
    c02<dim>(run);
  else if (run.prop == "C03")
    c03<dim>(run);
  else if (run.prop == "C04")
    c04<dim>(run);
  else if (run.prop == "C05")
    c05<dim>(run);
  else if (run.prop == "C06")
    c06<dim>(run);
  else if (run.prop == "C21")
    c21<dim>(run);
  else
    throw std::logic_error("unknown property " + run.prop);
}

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize init(argc, argv, 1);
  Run run(argc, argv);
  return run.explore(
      [](Run &r)
      {
        if (r.choose(2, "dim-2") == 0)
          dispatch<2>(r);
        else
          dispatch<3>(r);
      });
}
