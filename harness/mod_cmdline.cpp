// The command line parser of ctool1cd.
#include "vexec.h"
#include <cstring>
#include "ParseCommandLine.h"

static const char *name(Command c)
{
	switch (c) {
	case Command::help: return "help";
	case Command::no_verbose: return "noverbose";
	case Command::quit: return "quit";
	case Command::not_exclusively: return "notexclusively";
	case Command::export_all_to_xml: return "exportalltoxml";
	case Command::xml_blob_to_file: return "blobtofile";
	case Command::xml_parse_blob: return "parseblob";
	case Command::save_config: return "dumpdbconfig";
	case Command::save_configsave: return "dumpconfig";
	case Command::save_vendors_configs: return "dumpvendorsconfigs";
	case Command::save_all_configs: return "dumpallconfigs";
	case Command::export_to_xml: return "exporttoxml";
	case Command::save_depot_config: return "dumpdepotconfig";
	case Command::save_depot_config_part: return "dumppartdepotconfig";
	case Command::logfile: return "logfile";
	case Command::export_to_binary: return "exporttobinary";
	case Command::import_from_binary: return "importfrombinary";
	case Command::find_and_save_lost_objects: return "savelostobjects";
	case Command::save_tables_size: return "savetablessize";
	default: return "?";
	}
}

// arguments of the program -> database name, then command, first and second parameter of every option
COMMAND("cmd.parse")
{
	std::vector<std::string> keep(a.begin(), a.end());
	keep.insert(keep.begin(), "ctool1cd");
	std::vector<char *> v;
	for (auto &s : keep) v.push_back(&s[0]);
	v.push_back(nullptr);
	CommandParse p(v.data(), (int)keep.size());
	Args r;
	r.push_back(p.getfilename());
	for (auto &c : p.getcommands()) {
		r.push_back(name(c.command));
		r.push_back(c.param1);
		r.push_back(c.param2);
	}
	return r;
}
