"""Loads /repo's Python package with a given native module (the built extension or a stand-in)."""
import importlib.machinery
import importlib.util
import os
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
SO = os.path.join(os.path.dirname(HERE), "target", "py", "debug", "deps", "libs2gpp.so")
REPO = "/repo/s2gpp"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "stub"))


def native():
    loader = importlib.machinery.ExtensionFileLoader("s2gpp.s2gpp", SO)
    spec = importlib.util.spec_from_file_location("s2gpp.s2gpp", SO, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    return m


def package(nat):
    """A freshly executed copy of the package on top of the native module `nat`."""
    for k in [k for k in sys.modules if k == "s2gpp" or k.startswith("s2gpp.")]:
        del sys.modules[k]
    spec = importlib.util.spec_from_file_location(
        "s2gpp", os.path.join(REPO, "__init__.py"), submodule_search_locations=[REPO])
    m = importlib.util.module_from_spec(spec)
    sys.modules["s2gpp"] = m
    sys.modules["s2gpp.s2gpp"] = nat
    m.s2gpp = nat
    spec.loader.exec_module(m)
    return m


def stub(calls):
    """A native module whose functions only record their arguments, by name."""
    def local_array(data, pattern_length, latent, query_length, rate, n_threads, clustering, self_correction):
        calls.append(("local_array", dict(locals())))
        calls[-1][1].pop("calls", None)
        return "scores"

    def local_file(data_path, pattern_length, latent, query_length, rate, n_threads, score_output_path,
                   column_start, column_end, clustering, self_correction, local_host):
        calls.append(("local_file", dict(locals())))
        calls[-1][1].pop("calls", None)

    def main(data_path, pattern_length, latent, query_length, rate, n_threads, score_output_path,
             column_start, column_end, clustering, self_correction, local_host, n_cluster_nodes):
        calls.append(("main", dict(locals())))
        calls[-1][1].pop("calls", None)

    def sub(pattern_length, latent, query_length, rate, n_threads, score_output_path,
            column_start, column_end, clustering, self_correction, local_host, n_cluster_nodes, mainhost):
        calls.append(("sub", dict(locals())))
        calls[-1][1].pop("calls", None)

    m = types.ModuleType("s2gpp.s2gpp")
    m.s2gpp_local_array, m.s2gpp_local_file = local_array, local_file
    m.s2gpp_distributed_main, m.s2gpp_distributed_sub = main, sub
    return m
