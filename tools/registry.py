import importlib
CHECKS = {}
for m in ('c_container', 'c_access', 'c_units', 'c_transform', 'c_operations', 'c_heap', 'c_models', 'c_anomaly', 'c_cv', 'c_predict', 'c_storage', 'c_plots', 'c_items', 'c_detect', 'c_network', 'c_external', 'c_text', 'c_origin'):
    mod = importlib.import_module(m)
    for n in dir(mod):
        if n.startswith('check_'):
            CHECKS[n[6:]] = getattr(mod, n)
