#!/bin/sh
exec cat
