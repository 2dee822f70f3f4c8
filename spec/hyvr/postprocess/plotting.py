import sys
import numpy as np
import matplotlib.pyplot as plt

def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, ylim_y=None, xlim_x=None, ylim_x=None, cmap=None):
    if y is None:
        y = [model.grid.y0 + model.grid.ly / 2]
    if x is None:
        x = [model.grid.x0 + model.grid.lx / 2]
    if np.isscalar(y):
        y = [y]
    if np.isscalar(x):
        x = [x]
    for yi in y:
        fig, ax = plt.subplots()
        y_index = int(np.round((yi - (model.grid.y0 + model.grid.dy / 2)) / model.grid.dy))
        if 0 <= y_index and y_index < model.grid.ny:
            im = ax.pcolor(model.grid.X[:, y_index, :].T, model.grid.Z[:, y_index, :].T, model.data[field][:, y_index, :].T, cmap=cmap)
            ax.set_title(field + ', y = {:.2f}'.format(yi))
            ax.set_xlabel('x')
            ax.set_ylabel('z')
            if xlim_y is not None:
                ax.set_xlim(xlim_y)
            if ylim_y is not None:
                ax.set_ylim(ylim_y)
            ax.set_aspect('equal')
            fig.colorbar(im, ax=ax)
            plt.show(fig)
        else:
            print('Warning: y = {:.2f} not in model domain'.format(yi), file=sys.stderr)
    for xi in x:
        fig, ax = plt.subplots()
        x_index = int(np.round((xi - (model.grid.x0 + model.grid.dx / 2)) / model.grid.dx))
        if 0 <= x_index and x_index < model.grid.nx:
            im = ax.pcolor(model.grid.Y[x_index, :, :].T, model.grid.Z[x_index, :, :].T, model.data[field][x_index, :, :].T, cmap=cmap)
            ax.set_title(field + ', x = {:.2f}'.format(xi))
            ax.set_xlabel('y')
            ax.set_ylabel('z')
            if xlim_x is not None:
                ax.set_xlim(xlim_x)
            if ylim_x is not None:
                ax.set_ylim(ylim_x)
            ax.set_aspect('equal')
            fig.colorbar(im, ax=ax)
            plt.show(fig)
        else:
            print('Warning: x = {:.2f} not in model domain'.format(xi), file=sys.stderr)
