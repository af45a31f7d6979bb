import numpy as np
from .group_lasso_overlap_ import objective

def group_lasso_feat_split(A, b, lamda=1.0, ni=2, rho=1.0, alpha=1.0):
    QUIET = 0
    MAX_ITER = 100
    RELTOL = 0.01
    ABSTOL = 0.0001
    m, n = A.shape
    N = n / ni
    x = np.zeros((ni, N))
    z = np.zeros(m)
    u = np.zeros(m)
    Axbar = np.zeros(m)
    zs = np.zeros((m, N))
    Aixi = np.zeros((m, N))
    Vis, Dis = ([], [])
    Ats = []
    for i in range(N):
        Ai = A[:, i * ni:(i + 1) * ni]
        Di, Vi = np.linalg.eig(Ai.T.dot(Ai))
        Vis.append(Vi)
        Dis.append(Di)
        Ats.append(Ai.T)
    hist = []
    for k in range(MAX_ITER):
        for i in range(N):
            Ai = A[:, i * ni:(i + 1) * ni]
            xx = x_update(Ai, Aixi[:, i] + z - Axbar - u, lamda / rho, Vis[i], Dis[i])
            x[:, i] = xx
            Aixi[:, i] = Ai.dot(x[:, i])
        zold = z
        Axbar = 1.0 / N * A.dot(x.ravel())
        Axbar_hat = alpha * Axbar + (1 - alpha) * zold
        z = (b + rho * (Axbar_hat + u)) / (N + rho)
        u = u + Axbar_hat - z
        s = 0
        q = 0
        zsold = zs
        zs = z.reshape(-1, 1).dot(np.ones((1, N)))
        zs += Aixi - Axbar.reshape(-1, 1).dot(np.ones((1, N)))
        for i in range(N):
            s = s + np.linalg.norm(-rho * Ats[i].dot(zs[:, i] - zsold[:, i])) ** 2
            q = q + np.linalg.norm(rho * Ats[i].dot(u)) ** 2
        history = [objective(A, b, lamda, x, z), np.sqrt(N) * np.linalg.norm(z - Axbar), np.sqrt(s), np.sqrt(n) * ABSTOL + RELTOL * max(np.linalg.norm(Aixi, 'fro'), np.linalg.norm(-zs, 'fro')), np.sqrt(n) * ABSTOL + RELTOL * np.sqrt(q)]
        hist.append(history)
        if history[1] < history[3] and history[2] < history[4]:
            break
    return x

def x_update(A, b, kappa, V, D):
    _, n = A.shape
    q = A.T.dot(b)
    x = np.zeros(n)
    if np.linalg.norm(q) > kappa:
        lower = 0
        upper = 10000000000.0
        for _ in range(100):
            t = (upper + lower) / 2.0
            x = V.dot(V.T.dot(q) / (D + t))
            if t > kappa / np.linalg.norm(x):
                upper = t
            else:
                lower = t
            if upper - lower <= 1e-06:
                break
    return x
