import importlib.machinery
import importlib.util
import os
import sys

REPO = "/repo"


class SourceOnly(importlib.machinery.SourceFileLoader):
    """Always compile from the source in /repo's working tree, never from a cached .pyc."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class RepoFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "opt_einsum" and not name.startswith("opt_einsum."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=SourceOnly(name, init), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=SourceOnly(name, base + ".py"))
        return None


sys.meta_path.insert(0, RepoFinder)

if __name__ == "__main__":
    from mc import core

    if sys.argv[1] == "replay":
        sys.exit(core.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main(sys.argv[1], tier))
