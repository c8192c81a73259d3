"""A feature constructor that costs nothing and records what it is given."""

import numpy as np
from vlib import ble
from vlib import envs

from balloon_learning_environment.env import features


class Blank(features.FeatureConstructor):
  """Features that cost nothing, recording what they are given."""
  made = []

  def __init__(self, forecast, atmosphere):
    super().__init__(forecast, atmosphere)
    self.given = (forecast, atmosphere)
    self.seen = []
    Blank.made.append(self)

  def observe(self, observation):
    self.seen.append((ble.state_dict(observation.balloon_observation),
                      envs.wind_of(observation.wind_at_balloon)))

  def get_features(self):
    return np.array([len(self.seen)], np.float32)

  @property
  def observation_space(self):
    return None
