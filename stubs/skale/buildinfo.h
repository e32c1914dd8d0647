#pragma once
struct buildinfo { const char *project_version="3.19.0",*git_commit_hash="",*build_type="",*system_name="linux",*compiler_id="clang",*compiler_version="",*system_processor=""; const char* git_branch=""; };
inline const buildinfo* skale_get_buildinfo() { static buildinfo b; return &b; }
