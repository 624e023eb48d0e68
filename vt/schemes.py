"""Reference time schemes (Butcher tableaux, written independently)."""
import numpy as np

TABLEAUX = {
    'euler': ([[]], [1.], [0.]),
    'rk2': ([[], [.5]], [0., 1.], [0., .5]),
    'rk4': ([[], [.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6], [0., .5, .5, 1.]),
}


def explicit(tableau):
    A, b, c = tableau

    def step(trend, time, x, dt):
        ks = []
        for row, ci in zip(A, c):
            y = x
            for a, k in zip(row, ks):
                if a:
                    y = y + (a * dt) * k
            ks.append(trend(time + ci * dt, y))
        return x + dt * sum(bi * k for bi, k in zip(b, ks))
    return step


STEP = {name: explicit(tab) for name, tab in TABLEAUX.items()}
