"""Fixed clients of the repository's classes and of their specifications.
Parsed by the analyser, never executed."""
from mlpaper.classification import JustNoise as CNoise
from mlpaper.regression import JustNoise as RNoise
from spec.classification import JustNoise as SCNoise
from spec.regression import JustNoise as SRNoise


def class_noise_impl(X_train: "arr2", y_train: "lab1", X_test: "arr2", n_labels: "int", pseudo_count: "float"):
    m = CNoise(n_labels, pseudo_count)
    m.fit(X_train, y_train)
    return m.predict_log_proba(X_test)


def class_noise_spec(X_train: "arr2", y_train: "lab1", X_test: "arr2", n_labels: "int", pseudo_count: "float"):
    m = SCNoise(n_labels, pseudo_count)
    m.fit(X_train, y_train)
    return m.predict_log_proba(X_test)


def class_noise_kw_impl(X_train: "arr2", y_train: "lab1", X_test: "arr2", K: "int", c: "float"):
    m = CNoise(pseudo_count=c, n_labels=K)
    m.fit(X_train, y_train)
    return m.predict_log_proba(X_test)


def class_noise_kw_spec(X_train: "arr2", y_train: "lab1", X_test: "arr2", K: "int", c: "float"):
    m = SCNoise(K, c)
    m.fit(X_train, y_train)
    return m.predict_log_proba(X_test)


def class_noise_default_impl(X_train: "arr2", y_train: "lab1", X_test: "arr2"):
    m = CNoise()
    m.fit(X_train, y_train)
    return m.predict_log_proba(X_test)


def class_noise_default_spec(X_train: "arr2", y_train: "lab1", X_test: "arr2"):
    m = SCNoise(2, 0.0)
    m.fit(X_train, y_train)
    return m.predict_log_proba(X_test)


def class_noise_refit_impl(X_old: "arr2", y_old: "lab1", X_train: "arr2", y_train: "lab1", X_test: "arr2", n_labels: "int", pseudo_count: "float"):
    m = CNoise(n_labels, pseudo_count)
    m.fit(X_old, y_old)
    m.predict_log_proba(X_old)
    m.fit(X_train, y_train)
    m.predict_log_proba(X_train)
    return m.predict_log_proba(X_test)


def class_noise_refit_spec(X_old: "arr2", y_old: "lab1", X_train: "arr2", y_train: "lab1", X_test: "arr2", n_labels: "int", pseudo_count: "float"):
    m = SCNoise(n_labels, pseudo_count)
    m.fit(X_train, y_train)
    return m.predict_log_proba(X_test)


def reg_noise_impl(X_train: "arr2", y_train: "arr1", X_test: "arr2"):
    m = RNoise()
    m.fit(X_train, y_train)
    return m.predict(X_test, return_std=True)


def reg_noise_spec(X_train: "arr2", y_train: "arr1", X_test: "arr2"):
    m = SRNoise()
    m.fit(X_train, y_train)
    return m.predict(X_test, return_std=True)


def reg_noise_default_impl(X_train: "arr2", y_train: "arr1", X_test: "arr2"):
    m = RNoise()
    m.fit(X_train, y_train)
    return m.predict(X_test)


def reg_noise_default_spec(X_train: "arr2", y_train: "arr1", X_test: "arr2"):
    m = SRNoise()
    m.fit(X_train, y_train)
    return m.predict(X_test)


def reg_noise_refit_impl(X_old: "arr2", y_old: "arr1", X_train: "arr2", y_train: "arr1", X_test: "arr2"):
    m = RNoise()
    m.fit(X_old, y_old)
    m.predict(X_old)
    m.fit(X_train, y_train)
    m.predict(X_train)
    return m.predict(X_test)


def reg_noise_refit_spec(X_old: "arr2", y_old: "arr1", X_train: "arr2", y_train: "arr1", X_test: "arr2"):
    assert len(y_old) >= 2
    m = SRNoise()
    m.fit(X_train, y_train)
    return m.predict(X_test)
