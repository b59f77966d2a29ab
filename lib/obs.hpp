// obs.hpp - everything the public API lets a user observe of a unit or an archive, as text
#pragma once
#include "sml.hpp"
#include <srcml.h>
#include <string>
namespace sml {
inline std::string q(const char* p) { return p ? "'" + std::string(p) + "'" : "null"; }
// settings and metadata of a unit
inline std::string obs_unit_meta(srcml_unit* u, bool enc = true) {
    std::string o;
    o += "language=" + q(srcml_unit_get_language(u)) + " filename=" + q(srcml_unit_get_filename(u)) + " version=" + q(srcml_unit_get_version(u));
    o += " timestamp=" + q(srcml_unit_get_timestamp(u)) + " hash=" + q(srcml_unit_get_hash(u)) + " revision=" + q(srcml_unit_get_revision(u));
    if (enc) o += " encoding=" + q(srcml_unit_get_src_encoding(u));
    return o;
}
inline std::string obs_unit(srcml_unit* u, bool enc = true) {
    std::string o = obs_unit_meta(u, enc);
    const char* x = srcml_unit_get_srcml_outer(u);
    o += " loc=" + std::to_string(srcml_unit_get_loc(u)) + "\n outer=" + q(x);
    x = srcml_unit_get_srcml(u); o += "\n srcml=" + q(x);
    x = srcml_unit_get_srcml_inner(u); o += "\n inner=" + q(x);
    return o;
}
inline std::string obs_archive(srcml_archive* a, bool options = true) {
    std::string o;
    o += "xml_encoding=" + q(srcml_archive_get_xml_encoding(a)) + " src_encoding=" + q(srcml_archive_get_src_encoding(a));
    o += " revision=" + q(srcml_archive_get_revision(a)) + " language=" + q(srcml_archive_get_language(a)) + " url=" + q(srcml_archive_get_url(a));
    o += " version=" + q(srcml_archive_get_version(a)) + " tabstop=" + std::to_string(srcml_archive_get_tabstop(a));
    if (options) o += " options=" + std::to_string(srcml_archive_get_options(a));
    o += " solitary=" + std::to_string(srcml_archive_is_solitary_unit(a)) + " hash=" + std::to_string(srcml_archive_has_hash(a));
    size_t n = srcml_archive_get_namespace_size(a);
    o += " ns(" + std::to_string(n) + ")=";
    for (size_t i = 0; i < n; ++i) o += q(srcml_archive_get_namespace_prefix(a, i)) + ":" + q(srcml_archive_get_namespace_uri(a, i)) + ",";
    o += " pi=" + q(srcml_archive_get_processing_instruction_target(a)) + "," + q(srcml_archive_get_processing_instruction_data(a));
    o += " rev=" + std::to_string((long) srcml_archive_get_srcdiff_revision(a));
    return o;
}
}
