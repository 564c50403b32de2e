F = 'scalopus_tracing/src/spsc_ringbuffer.h'
PUSH_ST = "    container_[write_index] = std::move(v);  // move it into the container.\n\n    write_index_.store(next, std::memory_order_release);\n"
POP_IDX = "    std::size_t next = (read_index + 1) % max_size_;\n    read_index_.store(next, std::memory_order_release);\n"
LOOP = """    for (std::size_t index = read_index; index < read_index + readable_count; index++)
    {
      *(output++) = std::move(container_[index % max_size_]);  // This deals with wrapping automatically.
    }
"""
M = [
 dict(name='push store relaxed', props=['C04'], kind='bug', edits=[(F, "write_index_.store(next, std::memory_order_release)", "write_index_.store(next, std::memory_order_relaxed)")]),
 dict(name='publish before write', props=['C04'], kind='bug', edits=[(F, PUSH_ST, "    write_index_.store(next, std::memory_order_release);\n    container_[write_index] = std::move(v);\n")]),
 dict(name='push reads read_index relaxed', props=['C04'], kind='bug', edits=[(F, "next == read_index_.load(std::memory_order_acquire)", "next == read_index_.load(std::memory_order_relaxed)")]),
 dict(name='pop_into loads relaxed', props=['C04'], kind='bug', edits=[(F, "  std::size_t pop_into(OutputIterator output, const std::size_t max_count)\n  {\n    const std::size_t write_index = write_index_.load(std::memory_order_acquire);", "  std::size_t pop_into(OutputIterator output, const std::size_t max_count)\n  {\n    const std::size_t write_index = write_index_.load(std::memory_order_relaxed);")]),
 dict(name='R pop releases slot before reading (the kept-empty slot protects it)', props=['C03', 'C04'], kind='same', edits=[(F, "    v = std::move(container_[read_index]);  // move the value from the container into the value type.\n\n", ""), (F, POP_IDX, POP_IDX + "    v = std::move(container_[read_index]);\n")]),
 dict(name='pop_into releases before reading', props=['C04'], kind='bug', edits=[(F, LOOP, "    read_index_.store((read_index + readable_count) % max_size_, std::memory_order_release);\n" + LOOP), (F, "    std::size_t next = (read_index + readable_count) % max_size_;\n    read_index_.store(next, std::memory_order_release);\n", "")]),
 dict(name='pop store relaxed', props=['C04'], kind='bug', edits=[(F, POP_IDX, POP_IDX.replace("release", "relaxed"))]),
 dict(name='pop_into no wrap', props=['C03'], kind='bug', edits=[(F, "std::size_t next = (read_index + readable_count) % max_size_;", "std::size_t next = read_index + readable_count; if (next > max_size_) next -= max_size_;")]),
 dict(name='available off on wrap', props=['C03'], kind='bug', edits=[(F, "return write_index + max_size_ - read_index;", "return write_index + max_size_ - read_index - 1;")]),
 dict(name='full check off', props=['C03'], kind='bug', edits=[(F, "const std::size_t next = (write_index + 1) % max_size_;\n\n    if (next ==", "const std::size_t next = (write_index + 1) % max_size_;\n\n    if ((next + (max_size_ > 8 && next == 0 ? 1 : 0)) ==")]),
 dict(name='pop_into ignores max when wrapped', props=['C03'], kind='bug', edits=[(F, "size_t readable_count = std::min(available(write_index, read_index), max_count);", "size_t readable_count = write_index >= read_index ? std::min(available(write_index, read_index), max_count) : available(write_index, read_index);")]),
 dict(name='rejected push moves', props=['C03'], kind='bug', edits=[(F, "    if (next == read_index_.load(std::memory_order_acquire))\n    {\n", "    ValueType tmp{ std::move(v) };\n    if (next == read_index_.load(std::memory_order_acquire))\n    {\n"), (F, "container_[write_index] = std::move(v)", "container_[write_index] = std::move(tmp)")]),
 dict(name='zero size accepted', props=['C03'], kind='bug', edits=[(F, "if (max_size_ == 0)", "if (max_size_ == 0 && false)")]),
 dict(name='R wrap helper', props=['C03', 'C04'], kind='same', edits=[(F, "  std::size_t available(", "  std::size_t advance(std::size_t i, std::size_t n) const\n  {\n    return (i + n) % max_size_;\n  }\n\n  std::size_t available("), (F, "const std::size_t next = (write_index + 1) % max_size_;", "const std::size_t next = advance(write_index, 1);"), (F, "std::size_t next = (read_index + readable_count) % max_size_;", "std::size_t next = advance(read_index, readable_count);")]),
 dict(name='R conditional wrap', props=['C03', 'C04'], kind='same', edits=[(F, "const std::size_t next = (write_index + 1) % max_size_;", "const std::size_t next = write_index + 1 == max_size_ ? 0 : write_index + 1;")]),
 dict(name='R while loop counter', props=['C03', 'C04'], kind='same', edits=[(F, LOOP, """    std::size_t done = 0;
    while (done != readable_count)
    {
      *output = std::move(container_[(read_index + done) % max_size_]);
      ++output;
      ++done;
    }
""")]),
 dict(name='R countdown wrap index', props=['C03', 'C04'], kind='same', edits=[(F, LOOP, """    std::size_t at = read_index;
    for (std::size_t left = readable_count; left > 0; --left)
    {
      *(output++) = std::move(container_[at]);
      at = at + 1 == max_size_ ? 0 : at + 1;
    }
""")]),
 dict(name='R seq_cst', props=['C03', 'C04'], kind='same', edits=[(F, "write_index_.store(next, std::memory_order_release)", "write_index_.store(next)"), (F, "next == read_index_.load(std::memory_order_acquire)", "next == read_index_")]),
 dict(name='R early return', props=['C03', 'C04'], kind='same', edits=[(F, LOOP, "    if (readable_count == 0)\n    {\n      return 0;\n    }\n" + LOOP)]),
 dict(name='R empty via size', props=['C03', 'C04'], kind='same', edits=[(F, "return write_index_.load(std::memory_order_relaxed) == read_index_.load(std::memory_order_relaxed);", "return size() == 0;")]),
 dict(name='R dead statement', props=['C03', 'C04'], kind='same', edits=[(F, "    v = std::move(container_[read_index]);", "    int unused = 0;\n    (void)unused;\n    v = std::move(container_[read_index]);")]),
]
