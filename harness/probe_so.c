int vf_probe_value(void) { return 20261119; }
