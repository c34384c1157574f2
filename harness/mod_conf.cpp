// Configurations, vendor configurations and the configuration depot.
#include "base.h"
#include "Table.h"
#include "SupplierConfig.h"
#include "PackDirectory.h"
#include "ConfigStorage.h"

using namespace System;

OP("config") { return B(s.b()->save_config(boost::filesystem::path(a[1]))); }
OP("configsave") { return B(s.b()->save_configsave(boost::filesystem::path(a[1]))); }
OP("ext") { return B(s.b()->save_config_ext(boost::filesystem::path(a[1]), BinaryGuid(a[2]), a[3])); }
OP("extdb") { return B(s.b()->save_config_ext_db(boost::filesystem::path(a[1]), a[2])); }
OP("depot") { return B(s.b()->save_depot_config(a[1], (int)I(a[2]))); }
OP("depotpart") { return B(s.b()->save_part_depot_config(a[1], (int)I(a[2]), (int)I(a[3]))); }
OP("depotver") { return S(s.b()->get_ver_depot_config((int)I(a[1]))); }
OP("suppliers")
{
	Out o;
	for (auto &c : s.b()->supplier_configs()) o << c->name() << c->supplier() << c->version();
	return o.s;
}
OP("supplier") { auto &c = s.b()->supplier_configs(); return I(a[1]) < (long long)c.size() ? B(c[I(a[1])]->save_to_file(boost::filesystem::path(a[2]))) : "none"; }
COMMAND("pack.get")     // root directory, hash... -> per hash: found, content
{
	boost::filesystem::path root(a[0]);
	PackDirectory p(root);
	Args r;
	for (size_t i = 1; i < a.size(); i++) {
		bool found = false;
		std::unique_ptr<TStream> st(p.get_data(a[i], found));
		r.push_back(B(found));
		std::string v;
		if (st) {
			v.resize(st->GetSize());
			st->Seek(0, soFromBeginning);
			if (!v.empty()) st->Read(&v[0], v.size());
		}
		r.push_back(v);
	}
	return r;
}

// data: operations "read", "exists", "write", "present", each followed by a path and, for write, the content; a[1]: kind, a[2]: place or table names
static std::string storage_run(ConfigStorage &c, const std::string &data)
{
	std::vector<std::string> v;
	for (size_t p = 0; p + 4 <= data.size();) {
		uint32_t n;
		memcpy(&n, &data[p], 4);
		v.push_back(data.substr(p + 4, n));
		p += 4 + n;
	}
	Out o;
	for (size_t i = 0; i + 2 < v.size(); i += 3) {
		try {
			if (v[i] == "exists") o << B(c.fileexists(v[i + 1]));
			else if (v[i] == "present") o << c.presentation();
			else if (v[i] == "write") {
				TMemoryStream m;
				fill(m, v[i + 2]);
				o << B(c.writefile(v[i + 1], &m));
			} else {
				ConfigFile *f = c.readfile(v[i + 1]);
				if (!f) o << "";
				else {
					std::string s((size_t)f->str->GetSize(), 0);
					auto at = f->str->Seek(0, System::Classes::soFromCurrent);
					size_t n = s.empty() ? 0 : f->str->Read(&s[0], s.size());
					o << "+" + (at ? "at " + S(at) : std::string()) + s.substr(0, n);
					c.close(f);
				}
			}
		} catch (DetailedException &e) {
			o << std::string("exc");
		}
	}
	return o.s;
}
OP("storage")
{
	std::unique_ptr<TableFiles> t1, t2;
	std::unique_ptr<ConfigStorage> c;
	auto tab = [&](const char *n) -> Table * {
		for (int i = 0; i < s.b()->get_numtables(); i++)
			if (s.b()->get_table(i)->get_name() == n) return s.b()->get_table(i);
		return nullptr;
	};
	if (a[1] == "dir") c.reset(new ConfigStorageDirectory(a[2]));
	else if (a[1] == "cf") c.reset(new ConfigStorageCFFile(a[2]));
	else if (a[1] == "config") {
		t1.reset(new TableFiles(tab("CONFIG")));
		c.reset(new ConfigStorageTableConfig(t1.get()));
	} else {
		t1.reset(new TableFiles(tab("CONFIG")));
		t2.reset(new TableFiles(tab("CONFIGSAVE")));
		c.reset(new ConfigStorageTableConfigSave(t1.get(), t2.get()));
	}
	std::string r = storage_run(*c, data);
	c.reset();
	return r;
}
