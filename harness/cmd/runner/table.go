package main

