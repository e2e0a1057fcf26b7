module vharness

go 1.25.0

require github.com/Eyevinn/dash-mpd v0.0.0

require github.com/barkimedes/go-deepcopy v0.0.0-20220514131651-17c30cfc62df // indirect

replace github.com/Eyevinn/dash-mpd => /repo
