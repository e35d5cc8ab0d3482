// Included by h_cli.cc
#pragma once
#include <archive.h>
#include <archive_entry.h>

/*
 * C34: arki-query --archive, one element for each item, in any format
 */
void check_archive(Cli& n)
{
    auto& rng = n.rng;
    ItemGen gen(rng);
    gen.format = rng.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5, DataFormat::NETCDF});
    unsigned size = rng.chance(60) ? rng.range(0, 40) : rng.range(200, 2500);
    std::vector<std::shared_ptr<Metadata>> mds;
    std::vector<std::string> datas;
    // Data can be in the metadata or in another file
    bool in_file = rng.chance(60);
    std::string data_file;
    for (unsigned i = 0; i < size; ++i)
    {
        auto item = gen.make();
        auto md   = item.md();
        if (in_file)
        {
            auto data = md->get_data().read();
            md->set_source(types::Source::createBlobUnlocked(gen.format, n.c.dir, "items.data", data_file.size(), data.size()));
            data_file.append(data.begin(), data.end());
            if (gen.format == DataFormat::VM2)
                data_file += "\n";
            datas.emplace_back(data.begin(), data.end());
        }
        else
        {
            md->makeInline();
            auto data = md->get_data().read();
            datas.emplace_back(data.begin(), data.end());
        }
        mds.push_back(md);
    }
    if (in_file)
        write_text(n.c.dir / "items.data", data_file);
    {
        core::File out(n.c.dir / "items.arkimet", O_WRONLY | O_CREAT | O_TRUNC, 0666);
        for (const auto& md : mds)
            md->write(out);
        out.close();
    }
    std::string format = rng.pick({"tar", "tar.gz", "tar.xz", "zip"});
    std::vector<std::string> argv{"arki-query", "--archive=" + format, "", (n.c.dir / "items.arkimet").native()};
    fs::path dest;
    if (rng.chance(40))
    {
        dest = n.c.dir / "items.out";
        argv.insert(argv.begin() + 1, {"-o", dest.native()});
    }
    auto t = n.run(argv);
    if (t.rc)
        fail("archive-fails", cat(size, " items; ", n.desc(t)));
    auto got = dest.empty() ? t.out : read_text(dest);
    count("archives");
    if (size > 1000)
        count("large_archives");

    struct Freer
    {
        struct ::archive* a = archive_read_new();
        ~Freer() { archive_read_free(a); }
    } in;
    archive_read_support_filter_all(in.a);
    archive_read_support_format_all(in.a);
    if (archive_read_open_memory(in.a, got.data(), got.size()) != ARCHIVE_OK)
        fail("archive-unreadable", cat(archive_error_string(in.a), ", ", size, " items; ", n.desc(t)));
    std::map<std::string, std::string> elements;
    std::vector<std::string> order;
    struct ::archive_entry* e;
    int res;
    while ((res = archive_read_next_header(in.a, &e)) == ARCHIVE_OK)
    {
        std::string name = archive_entry_pathname(e), content;
        char buf[16384];
        la_ssize_t r;
        while ((r = archive_read_data(in.a, buf, sizeof(buf))) > 0)
            content.append(buf, r);
        if (r < 0)
            fail("archive-unreadable", cat(archive_error_string(in.a), ", ", name, ", ", size, " items; ", n.desc(t)));
        if (!elements.emplace(name, content).second)
            violation("archive-names", cat("two elements are called ", name, ", ", size, " items; ", n.desc(t)));
        order.push_back(name);
    }
    if (res != ARCHIVE_EOF)
        fail("archive-unreadable", cat(archive_error_string(in.a), ", ", size, " items; ", n.desc(t)));

    if (elements.size() != size + 1)
        fail("archive-elements", cat(elements.size(), " elements for ", size, " items; ", n.desc(t)));
    std::string index;
    for (const auto& i : elements)
        if (fs::path(i.first).filename() == "metadata.md")
            index = i.first;
    for (unsigned i = 0; i < size; ++i)
    {
        auto f = elements.find(order[i]);
        if (f->second != datas[i])
            violation("archive-data", cat(order[i], " does not have the data of item ", i, " of ", size, "; ", n.desc(t)));
        count("archived_items");
    }
    std::vector<std::shared_ptr<Metadata>> stored;
    try
    {
        stored = read_mds(elements[index], n.c.dir);
    }
    catch (std::exception& e)
    {
        // Metadata with inline data are stored without them
        if (in_file)
            violation("archive-metadata", cat(e.what(), ", ", size, " items; ", n.desc(t)));
        else
            violation("archive-source", cat(e.what(), ", ", size, " items; ", n.desc(t)));
        return;
    }
    if (stored.size() != size && in_file)
        fail("archive-metadata", cat(stored.size(), " metadata for ", size, " items; ", n.desc(t)));
    for (unsigned i = 0; i < stored.size() && i < size; ++i)
    {
        if (in_file && !stored[i]->items_equal(*mds[i]))
            violation("archive-metadata", cat("metadata ", i, " of ", size, " is not the one of the item; ", n.desc(t)));
        const auto* b = dynamic_cast<const types::source::Blob*>(&stored[i]->source());
        if (!b || b->filename != order[i] || b->offset != 0 || b->size != datas[i].size())
        {
            const auto* orig = dynamic_cast<const types::source::Blob*>(&mds[i]->source());
            bool same        = orig ? b && b->filename == orig->filename && b->offset == orig->offset && b->size == orig->size
                                    : stored[i]->source().style() == types::Source::Style::INLINE;
            violation(same ? "archive-source" : "archive-source-wrong",
                      cat("metadata ", i, " of ", size, " does not say where the data are; ", n.desc(t)));
            break;
        }
    }
}
