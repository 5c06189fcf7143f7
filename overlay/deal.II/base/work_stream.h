// Takes the place of deal.II's WorkStream in the binaries that explore task
// schedules: the same interface, but every decision the real one leaves to
// its threads is made by a controller (see harness/scheduler.hpp).
#ifndef VERIF_WORK_STREAM_H
#define VERIF_WORK_STREAM_H

#define WorkStream WorkStreamOfDealII
#include_next <deal.II/base/work_stream.h>
#undef WorkStream

#include <functional>
#include <list>
#include <memory>
#include <utility>
#include <vector>

namespace verif_ws
{
struct Controller
{
  virtual ~Controller() = default;
  // work(item, scratch slot, copy slot) may run in any thread; copy(item,
  // copy slot) for the items in ascending order, one at a time. Slots are
  // created on first use by new_scratch/new_copy, one after the other.
  virtual void run(int n_items, std::function<void()> new_scratch,
                   std::function<void()> new_copy,
                   std::function<void(int, int, int)> work,
                   std::function<void(int, int)> copy) = 0;
};
inline Controller *&controller()
{
  static Controller *c = nullptr;
  return c;
}
} // namespace verif_ws

namespace dealii
{
namespace WorkStream
{
template <typename Worker, typename Copier, typename Iterator,
          typename ScratchData, typename CopyData>
void run(Iterator const &begin,
         typename identity<Iterator>::type const &end, Worker worker,
         Copier copier, ScratchData const &sample_scratch_data,
         CopyData const &sample_copy_data, unsigned int const = 0,
         unsigned int const = 8)
{
  std::vector<Iterator> items;
  for (Iterator i = begin; i != end; ++i)
    items.push_back(i);
  if (items.empty())
    return;
  std::function<void(Iterator const &, ScratchData &, CopyData &)> const work =
      worker;
  std::function<void(CopyData const &)> const put = copier;
  auto *c = verif_ws::controller();
  if (!c)
  {
    ScratchData scratch = sample_scratch_data;
    CopyData copy = sample_copy_data;
    for (auto const &i : items)
    {
      if (work)
        work(i, scratch, copy);
      if (put)
        put(copy);
    }
    return;
  }
  std::vector<std::unique_ptr<ScratchData>> scratch;
  std::vector<std::unique_ptr<CopyData>> copy;
  c->run(
      items.size(),
      [&]()
      { scratch.push_back(std::make_unique<ScratchData>(sample_scratch_data)); },
      [&]() { copy.push_back(std::make_unique<CopyData>(sample_copy_data)); },
      [&](int i, int s, int k)
      {
        if (work)
          work(items[i], *scratch[s], *copy[k]);
      },
      [&](int, int k)
      {
        if (put)
          put(*copy[k]);
      });
}

template <typename Worker, typename Copier, typename Iterator,
          typename ScratchData, typename CopyData>
void run(std::vector<std::vector<Iterator>> const &colored, Worker worker,
         Copier copier, ScratchData const &scratch, CopyData const &copy,
         unsigned int const q = 0, unsigned int const n = 8)
{
  for (auto const &color : colored)
    run(color.begin(), color.end(),
        [&](typename std::vector<Iterator>::const_iterator const &i,
            ScratchData &s, CopyData &c) { worker(*i, s, c); },
        copier, scratch, copy, q, n);
}

template <typename MainClass, typename Iterator, typename ScratchData,
          typename CopyData>
void run(Iterator const &begin, typename identity<Iterator>::type const &end,
         MainClass &main_object,
         void (MainClass::*worker)(Iterator const &, ScratchData &, CopyData &),
         void (MainClass::*copier)(CopyData const &),
         ScratchData const &scratch, CopyData const &copy,
         unsigned int const q = 0, unsigned int const n = 8)
{
  run(begin, end,
      [&](Iterator const &i, ScratchData &s, CopyData &c)
      { (main_object.*worker)(i, s, c); },
      [&](CopyData const &c) { (main_object.*copier)(c); }, scratch, copy, q,
      n);
}

template <typename Worker, typename Copier, typename Range,
          typename ScratchData, typename CopyData,
          typename = decltype(std::declval<Range &>().begin())>
void run(Range range, Worker worker, Copier copier, ScratchData const &scratch,
         CopyData const &copy, unsigned int const q = 0,
         unsigned int const n = 8)
{
  run(range.begin(), range.end(), worker, copier, scratch, copy, q, n);
}
} // namespace WorkStream
} // namespace dealii
#endif
