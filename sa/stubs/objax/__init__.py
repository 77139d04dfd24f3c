from objax import nn, variable, module, random, functional, optimizer
from objax.module import Module, ModuleList, Jit, GradValues, ForceArgs, Grad, Vectorize
from objax.variable import TrainVar, StateVar, TrainRef, StateRef, BaseVar, VarCollection
